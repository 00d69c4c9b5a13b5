// vdrv: request server around Caliper's public interfaces.
//   reader-side requests are answered in this process;
//   "run" requests execute an annotation program in a forked child.
#include <caliper/AsyncEvent.h>
#include "vcommon.h"

#include "caliper/Annotation.h"
#include "caliper/Caliper.h"
#include "caliper/ChannelController.h"
#include "caliper/ConfigManager.h"
#include "caliper/RegionProfile.h"
#include "caliper/SnapshotRecord.h"
#include "caliper/cali.h"
#include "caliper/cali_datatracker.h"
#include "caliper/common/Log.h"
#include "caliper/common/OutputStream.h"
#include "caliper/reader/Aggregator.h"
#include "caliper/reader/CalQLParser.h"
#include "caliper/reader/CaliReader.h"
#include "caliper/reader/CaliWriter.h"
#include "caliper/reader/CaliperMetadataDB.h"
#include "caliper/reader/FlatExclusiveRegionProfile.h"
#include "caliper/reader/FlatInclusiveRegionProfile.h"
#include "caliper/reader/FormatProcessor.h"
#include "caliper/reader/NestedExclusiveRegionProfile.h"
#include "caliper/reader/NestedInclusiveRegionProfile.h"
#include "caliper/reader/Preprocessor.h"
#include "caliper/reader/QueryProcessor.h"
#include "caliper/reader/RecordSelector.h"
#include "prog.h"
#include "vpack.h"
#include "vconf.h"

#include <atomic>
#include <condition_variable>
#include <fcntl.h>
#include <functional>
#include <memory>
#include <mutex>
#include <signal.h>

#include <omp-tools.h>

extern "C" ompt_start_tool_result_t* ompt_start_tool(unsigned, const char*);
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unistd.h>

using namespace cali;

// ---------------------------------------------------------------- reader side

static std::string read_streams(const Fields& f, size_t first, size_t n, CaliperMetadataDB& db, NodeProcessFn np, SnapshotProcessFn sp)
{
    std::string err;
    for (size_t i = first; i < first + n && i < f.size(); ++i) {
        std::istringstream is(f[i]);
        CaliReader reader;
        reader.read(is, db, np, sp);
        if (reader.error()) err += std::to_string(i - first) + ": " + reader.error_msg() + "\n";
    }
    return err;
}

// query <calql> <flags> <n> streams...   flags: G list-globals
static Fields do_query(const Fields& f)
{
    CalQLParser parser(f[1].c_str());
    if (parser.error()) return { "parse_error", parser.error_msg() };
    QuerySpec spec = parser.spec();
    std::ostringstream os;
    std::string err;
    {
        OutputStream stream;
        stream.set_stream(&os);
        CaliperMetadataDB db;
        db.add_attribute_aliases(spec.aliases);
        db.add_attribute_units(spec.units);
        QueryProcessor proc(spec, stream);
        err = read_streams(f, 4, std::stoul(f[3]), db, [](CaliperMetadataAccessInterface&, const Node*) {}, proc);
        proc.flush(db);
    }
    return { "ok", os.str(), err };
}

// exec <calql> <n> streams... : run filter/preprocess/aggregate, dump the resulting records (no formatter)
static Fields do_exec(const Fields& f)
{
    CalQLParser parser(f[1].c_str());
    if (parser.error()) return { "parse_error", parser.error_msg() };
    QuerySpec spec = parser.spec();
    CaliperMetadataDB db;
    db.add_attribute_aliases(spec.aliases);
    db.add_attribute_units(spec.units);
    RecordSelector filter(spec);
    Preprocessor prep(spec);
    Aggregator agg(spec);
    bool do_agg = spec.aggregate.selection != QuerySpec::AggregationSelection::None;
    Fields out { "ok", "" };
    auto dump = [&out](CaliperMetadataAccessInterface& db, const EntryList& rec) { out.push_back(dump_entries(db, rec.begin(), rec.end())); };
    out[1] = read_streams(f, 3, std::stoul(f[2]), db, [](CaliperMetadataAccessInterface&, const Node*) {},
        [&](CaliperMetadataAccessInterface& in, const EntryList& rec) {
            EntryList mrec = prep.process(in, rec);
            if (!filter.pass(in, mrec)) return;
            if (do_agg) agg.add(in, mrec);
            else dump(in, mrec);
        });
    if (do_agg) agg.flush(db, dump);
    return out;
}

static std::string dump_sum(CaliperMetadataAccessInterface& db, const Attribute& thr, const Attribute& fa, const std::vector<Entry>& rec)
{
    std::string tv = "-", fv = "-"; size_t n = 0; uint64_t sum = 0;
    for (const Entry& e : rec) {
        if (e.is_immediate()) {
            ++n;
            if (e.value().type() == CALI_TYPE_INT) sum += static_cast<uint64_t>(e.value().to_int64());
            if (e.attribute() == thr.id()) tv = fmt_val(e.value()).substr(2);
            else if (e.attribute() == fa.id()) fv = fmt_val(e.value()).substr(2);
        } else
            for (const Node* k = e.node(); k && k->id() != CALI_INV_ID; k = k->parent()) {
                Attribute a = db.get_attribute(k->attribute());
                if (a && a.name().compare(0, 5, "cali.") != 0) ++n;
            }
    }
    return tv + " " + fv + " " + std::to_string(n) + " " + std::to_string(sum) + "\n";
}

// readsum <first attribute> stream -> record summaries
static Fields do_readsum(const Fields& f)
{
    CaliperMetadataDB db; std::string r;
    std::string err = read_streams(f, 2, 1, db, [](CaliperMetadataAccessInterface&, const Node*) {},
        [&](CaliperMetadataAccessInterface& in, const EntryList& rec) { r += dump_sum(in, in.get_attribute("thr"), in.get_attribute(f[1]), rec); });
    return { "ok", err, r };
}

// read <n> streams... -> ok, err, nattr, attr..., nglob, glob..., recs...
static Fields do_read(const Fields& f)
{
    CaliperMetadataDB db;
    Fields recs;
    std::string err = read_streams(f, 2, std::stoul(f[1]), db, [](CaliperMetadataAccessInterface&, const Node*) {},
        [&](CaliperMetadataAccessInterface& in, const EntryList& rec) { recs.push_back(dump_entries(in, rec.begin(), rec.end())); });
    Fields out { "ok", err };
    std::vector<Attribute> attrs = db.get_all_attributes();
    out.push_back(std::to_string(attrs.size()));
    for (auto& a : attrs) out.push_back(dump_attr(db, a));
    auto g = db.get_globals();
    out.push_back(std::to_string(g.size()));
    for (auto& e : g) out.push_back(dump_entry(db, e));
    out.insert(out.end(), recs.begin(), recs.end());
    return out;
}

// rewrite <n> streams... -> .cali text written by CaliWriter
static Fields do_rewrite(const Fields& f)
{
    std::ostringstream os;
    std::string err;
    {
        OutputStream stream; stream.set_stream(&os);
        CaliperMetadataDB db;
        CaliWriter writer(stream);
        err = read_streams(f, 2, std::stoul(f[1]), db, [](CaliperMetadataAccessInterface&, const Node*) {},
            [&](CaliperMetadataAccessInterface& in, const EntryList& rec) { writer.write_snapshot(in, rec); });
        writer.write_globals(db, db.get_globals());
    }
    return { "ok", os.str(), err };
}

// write: build records in a metadata db from a description and write them with CaliWriter.
// lines:  attr <h> <name> <type> <prop> [<h> <val>]...
//         node <n> <attr h> <val> <parent n|->    (make_tree_entry)
//         rec <entry>...     entry: n<k> | <attr h>=<val>
//         glob <attr h> <val>
//         wglob
static Fields do_write(const Fields& f)
{
    std::ostringstream os;
    Fields dump;
    {
        OutputStream stream; stream.set_stream(&os);
        CaliperMetadataDB db;
        CaliWriter writer(stream);
        std::map<std::string, Attribute> attrs;
        std::map<std::string, Node*> nodes;
        std::deque<std::string> store;
        std::istringstream is(f[1]);
        std::string line;
        while (std::getline(is, line)) {
            Fields t = split_ws(line);
            if (t.empty()) continue;
            auto val = [&](const std::string& e) { store.emplace_back(); return parse_val(e, store.back()); };
            if (t[0] == "attr") {
                std::vector<Attribute> ma; std::vector<Variant> mv;
                for (size_t i = 5; i + 1 < t.size(); i += 2) { ma.push_back(attrs[t[i]]); mv.push_back(val(t[i + 1])); }
                attrs[t[1]] = db.create_attribute(dec(t[2]), parse_type(t[3]), std::stoi(t[4]), ma.size(), ma.data(), mv.data());
            } else if (t[0] == "node") {
                Attribute a = attrs[t[2]]; Variant v = val(t[3]);
                nodes[t[1]] = db.make_tree_entry(1, &a, &v, t[4] == "-" ? nullptr : nodes[t[4]]);
            } else if (t[0] == "rec") {
                EntryList rec;
                for (size_t i = 1; i < t.size(); ++i) {
                    auto p = t[i].find('=');
                    if (p == std::string::npos) rec.push_back(Entry(nodes[t[i]]));
                    else rec.push_back(Entry(attrs[t[i].substr(0, p)], val(t[i].substr(p + 1))));
                }
                dump.push_back(dump_entries(db, rec.begin(), rec.end()));
                writer.write_snapshot(db, rec);
            } else if (t[0] == "glob") {
                db.set_global(attrs[t[1]], val(t[2]));
            } else if (t[0] == "wglob") {
                writer.write_globals(db, db.get_globals());
            }
        }
    }
    Fields out { "ok", os.str() };
    out.insert(out.end(), dump.begin(), dump.end());
    return out;
}

// parse <calql> -> spec as text lines
static std::string dump_op(const QuerySpec::AggregationOp& op)
{
    std::string r = enc(op.op.name ? op.op.name : "");
    for (auto& a : op.args) r += " " + enc(a);
    return r;
}
static std::string dump_cond(const QuerySpec::Condition& c)
{
    static const char* n[] = { "none", "exist", "notexist", "eq", "ne", "lt", "gt", "le", "ge" };
    return std::string(n[c.op]) + " " + enc(c.attr_name) + " " + enc(c.value);
}
static Fields do_parse(const Fields& f)
{
    std::string text(f[1]);
    std::unique_ptr<CalQLParser> p;
    std::istringstream is(text);
    if (f.size() > 2 && f[2] == "stream") p.reset(new CalQLParser(is)); else p.reset(new CalQLParser(text.c_str()));
    if (p->error()) return { "error", p->error_msg(), std::to_string(static_cast<long>(p->error_pos())) };
    QuerySpec s = p->spec();
    std::ostringstream os;
    os << "aggsel " << int(s.aggregate.selection) << "\n";
    for (auto& o : s.aggregate.list) os << "agg " << dump_op(o) << "\n";
    os << "groupbysel " << int(s.groupby.selection) << " path " << int(s.groupby.use_path) << "\n";
    for (auto& o : s.groupby.list) os << "groupby " << enc(o) << "\n";
    os << "selectsel " << int(s.select.selection) << " path " << int(s.select.use_path) << "\n";
    for (auto& o : s.select.list) os << "select " << enc(o) << "\n";
    os << "filtersel " << int(s.filter.selection) << "\n";
    for (auto& o : s.filter.list) os << "filter " << dump_cond(o) << "\n";
    os << "sortsel " << int(s.sort.selection) << "\n";
    for (auto& o : s.sort.list) os << "sort " << int(o.order) << " " << enc(o.attribute) << "\n";
    bool user = s.format.opt == QuerySpec::FormatSpec::User;
    os << "format " << int(s.format.opt) << " " << enc(user ? s.format.formatter.name : "") ;
    if (user) for (auto& kv : s.format.kwargs) os << " " << enc(kv.first) << "=" << enc(kv.second);
    os << "\n";
    for (auto& kv : s.aliases) os << "alias " << enc(kv.first) << " " << enc(kv.second) << "\n";
    for (auto& kv : s.units) os << "unit " << enc(kv.first) << " " << enc(kv.second) << "\n";
    for (auto& o : s.preprocess_ops) os << "let " << enc(o.target) << " " << dump_op(o.op) << " | " << dump_cond(o.cond) << "\n";
    return { "ok", os.str() };
}

// agg <calql> <mode> <nparts> <order> streams...  : partial aggregation and merging
//   mode "one": all streams into one aggregator. mode "merge": each stream aggregated alone in its own db,
//   its result merged into a common db and added to a final aggregator, in <order> (comma list)
static Fields do_agg(const Fields& f)
{
    CalQLParser parser(f[1].c_str());
    if (parser.error()) return { "parse_error", parser.error_msg() };
    QuerySpec spec = parser.spec();
    size_t n = std::stoul(f[3]);
    Fields out { "ok", "" };
    auto noop = [](CaliperMetadataAccessInterface&, const Node*) {};
    // postfix plan: <k> reads stream k into a new part, e is an empty part, + merges the last part into the one below it, , adds stream k to the last part
    struct Part { CaliperMetadataDB db; Aggregator agg; Part(const QuerySpec& s) : agg(s) { } };
    std::deque<std::unique_ptr<Part>> all; // by-value strings stay owned by the database they were read into
    std::vector<Part*> st;
    std::istringstream is(f[2]); std::string t;
    (void) n;
    while (is >> t) {
        if (t == "+") {
            if (st.size() < 2) return { "bad_request" };
            Part* b = st.back(); st.pop_back(); Part* a = st.back();
            b->agg.flush(b->db, [a](CaliperMetadataAccessInterface& in, const EntryList& rec) { a->agg.add(a->db, a->db.merge_snapshot(in, rec)); });
        } else if (t[0] == ',') {
            out[1] += read_streams(f, 5 + std::stoul(t.substr(1)), 1, st.back()->db, noop, st.back()->agg);
        } else {
            all.emplace_back(new Part(spec));
            st.push_back(all.back().get());
            if (t != "e") out[1] += read_streams(f, 5 + std::stoul(t), 1, st.back()->db, noop, st.back()->agg);
        }
    }
    if (st.size() != 1) return { "bad_request" };
    st[0]->agg.flush(st[0]->db, [&](CaliperMetadataAccessInterface& in, const EntryList& rec) { out.push_back(dump_entries(in, rec.begin(), rec.end())); });
    return out;
}

// profile <kind> <metric> <region attr> <n> streams...
static std::string dump_map(const std::map<std::string, double>& m)
{
    std::string r; char b[64];
    for (auto& kv : m) { snprintf(b, sizeof b, "%.17g", kv.second); r += enc(kv.first) + " " + b + "\n"; }
    return r;
}
static Fields do_profile(const Fields& f)
{
    CaliperMetadataDB db;
    auto noop = [](CaliperMetadataAccessInterface&, const Node*) {};
    size_t n = std::stoul(f[4]);
    char b[80];
    std::tuple<std::map<std::string, double>, double, double> res;
    std::vector<EntryList> recs; // the profile classes look up their attributes when constructed
    std::string err = read_streams(f, 5, n, db, noop, [&](CaliperMetadataAccessInterface&, const EntryList& r) { recs.push_back(r); });
    auto go = [&](auto p) { for (auto& r : recs) p(db, r); return p.result(); };
    const char *m = f[2].c_str(), *ra = f[3].c_str();
    if (f[1] == "flat-incl") res = go(FlatInclusiveRegionProfile(db, m, ra));
    else if (f[1] == "flat-excl") res = go(FlatExclusiveRegionProfile(db, m, ra));
    else if (f[1] == "nested-incl") res = go(NestedInclusiveRegionProfile(db, m, ra));
    else res = go(NestedExclusiveRegionProfile(db, m, ra));
    snprintf(b, sizeof b, "%.17g %.17g", std::get<1>(res), std::get<2>(res));
    return { "ok", dump_map(std::get<0>(res)), b };
}

// variants <vals...> : per value info plus all-pairs eq/compare matrices
static Fields do_variants(const Fields& f)
{
    std::deque<std::string> store;
    std::vector<Variant> v;
    for (size_t i = 1; i < f.size(); ++i) { store.emplace_back(); v.push_back(parse_val(f[i], store.back())); }
    std::ostringstream info, eq, cmp;
    char b[256];
    for (auto& x : v) {
        bool ok[6] = { false, false, false, false, false, false };
        int i = x.to_int(&ok[0]); int64_t l = x.to_int64(&ok[1]); uint64_t u = x.to_uint(&ok[2]); double d = x.to_double(&ok[3]); bool bo = x.to_bool(&ok[4]);
        cali_attr_type t = x.to_attr_type(&ok[5]);
        snprintf(b, sizeof b, " %d:%d %d:%" PRId64 " %d:%" PRIu64 " %d:%.17g %d:%d %d:%s", ok[0], i, ok[1], l, ok[2], u, ok[3], d, ok[4], bo, ok[5], cali_type2string(t));
        unsigned char buf[64];
        memset(buf, 0xA5, sizeof buf);
        size_t len = x.pack(buf), inc = 0; bool pok = false;
        Variant y = Variant::unpack(buf, &inc, &pok);
        bool tail = true; for (size_t k = len; k < sizeof buf; ++k) tail = tail && buf[k] == 0xA5;
        // string data is unmanaged: pack stores the pointer, so the unpacked value must be equal too
        info << fmt_val(x) << " " << enc(x.to_string()) << b << " pack " << len << " " << inc << " " << pok << " " << (x == y) << " " << tail << " " << int(x.type() == y.type()) << " "
             << x.empty() << " " << cali_type2string(x.type()) << " " << x.size() << "\n";
    }
    for (auto& x : v) { for (auto& y : v) { eq << (x == y ? 1 : 0); if ((x != y) == (x == y)) eq << "!"; eq << ' '; int c = cali_variant_compare(x.c_variant(), y.c_variant()); cmp << (c > 0) - (c < 0); if ((x < y) != (c < 0) || (x > y) != (c > 0)) cmp << "!"; cmp << ' '; } eq << "\n"; cmp << "\n"; }
    std::ostringstream ar;
    auto fits = [](const Variant& a, const Variant& b) { // no overflow in the exact sum
        if (a.type() != b.type()) return true;
        int64_t i; uint64_t u;
        if (a.type() == CALI_TYPE_INT) return !__builtin_add_overflow(a.to_int64(), b.to_int64(), &i);
        if (a.type() == CALI_TYPE_UINT) return !__builtin_add_overflow(a.to_uint(), b.to_uint(), &u);
        return true;
    };
    for (auto& x : v) {
        for (auto& y : v) {
            Variant s(x), mi(x), ma(x);
            if (fits(x, y) && (x.type() == y.type() || x.empty())) s += y;
            mi.min(y); ma.max(y);
            Variant umin(x), umax(x), usum(x);
            bool same = x.type() == y.type();
            if ((same && fits(x, y)) || x.empty()) Variant::update_minmaxsum(y, umin, umax, usum);
            ar << fmt_val(s) << ";" << fmt_val(mi) << ";" << fmt_val(ma) << ";" << fmt_val(umin) << ";" << fmt_val(umax) << ";" << fmt_val(usum) << " ";
        }
        ar << "\n";
    }
    return { "ok", info.str(), eq.str(), cmp.str(), ar.str() };
}
// fromstr <type> <text>... -> value per text
static Fields do_fromstr(const Fields& f)
{
    Fields out { "ok" };
    for (size_t i = 2; i < f.size(); ++i) out.push_back(fmt_val(Variant::from_string(parse_type(f[1]), f[i].c_str())));
    return out;
}
// misc: type/property name conversions
static Fields do_names(const Fields& f)
{
    Fields out { "ok" };
    for (size_t i = 1; i < f.size(); ++i) {
        if (f[i][0] == 'q') { // q<prop>:<buffer size>
            int p = 0; unsigned n = 0; sscanf(f[i].c_str() + 1, "%d:%u", &p, &n);
            std::vector<char> b(n + 1, 'Z');
            std::unique_ptr<char[]> h(new char[n]); memset(h.get(), 0, n);
            int l = cali_prop2string(p, h.get(), n); // the sanitizer reports overruns
            out.push_back(std::to_string(l));
        } else if (f[i][0] == 'd') { // d<value>/<count>
            std::string st, t = f[i].substr(1); size_t k = t.rfind('/');
            out.push_back(fmt_val(parse_val(t.substr(0, k), st).div(std::stoul(t.substr(k + 1)))));
        } else if (f[i][0] == 'p') { char b[512]; int p = std::stoi(f[i].substr(1)); int l = cali_prop2string(p, b, sizeof b); out.push_back(std::to_string(l) + " " + b + " " + std::to_string(cali_string2prop(b))); }
        else { cali_attr_type t = cali_string2type(f[i].substr(1).c_str()); out.push_back(cali_type2string(t)); }
    }
    return out;
}
// cfgcheck <string>... -> check result per string (static info only; runs in this process)
// ---------------------------------------------------------------- runtime side

namespace rt {

struct Obj { virtual ~Obj() {} };
template <class T> struct ObjT : Obj { T o; template <class... A> ObjT(A&&... a) : o(std::forward<A>(a)...) {} };
struct GuardObj : Obj { Annotation a; Annotation::Guard g; GuardObj(Annotation an) : a(an), g(a) {} };

struct ItObj : Obj { Loop::Iteration o; ItObj(const Loop& l, int i) : o(l.iteration(i)) {} };

struct MLoop { cali_id_t it; };

struct State {
    std::mutex lock; // protects the maps in free-running mode
    std::atomic<int> gen { 0 }; // changes when a handle may denote another attribute
    std::map<std::string, Attribute> attrs;
    std::map<std::string, std::shared_ptr<Annotation>> anns;
    std::vector<cali_id_t> channels;
    std::map<std::string, std::unique_ptr<ConfigManager>> cms;
    std::map<std::string, std::unique_ptr<RegionProfile>> rps;
    std::map<std::string, std::shared_ptr<ChannelController>> ccs;
    std::deque<std::string> store; // keeps strings alive where the API only borrows them
    std::deque<std::unique_ptr<char[]>> keep;
    std::map<std::string, std::string> annname;
    std::map<int, std::string> nodes; // context tree node of each path creation, by program line
};
static State& S = *new State; // never destroyed: the runtime flushes after static destructors

static Attribute attr_of(const std::string& h)
{
    // per-thread copies, so that concurrent operations are not synchronized by the harness
    static thread_local std::map<std::string, Attribute> cache;
    static thread_local int gen = -1;
    int now = S.gen.load(std::memory_order_relaxed);
    if (gen != now) { cache.clear(); gen = now; }
    auto c = cache.find(h);
    if (c != cache.end()) return c->second;
    std::lock_guard<std::mutex> g(S.lock);
    auto it = S.attrs.find(h);
    if (it == S.attrs.end()) return Attribute();
    return cache[h] = it->second;
}
static Annotation ann_of(const std::string& h)
{
    std::lock_guard<std::mutex> g(S.lock);
    return *S.anns.at(h);
}

// Kokkos tool hooks
namespace { struct KSpace { char name[64]; }; }
extern "C" {
void kokkosp_begin_parallel_for(const char*, const uint32_t, uint64_t*);
void kokkosp_begin_parallel_reduce(const char*, const uint32_t, uint64_t*);
void kokkosp_begin_parallel_scan(const char*, const uint32_t, uint64_t*);
void kokkosp_begin_fence(const char*, const uint32_t, uint64_t*);
void kokkosp_end_parallel_for(const uint64_t);
void kokkosp_end_parallel_reduce(const uint64_t);
void kokkosp_end_parallel_scan(const uint64_t);
void kokkosp_end_fence(const uint64_t);
void kokkosp_push_profile_region(char*);
void kokkosp_pop_profile_region();
void kokkosp_allocate_data(const KSpace, const char*, const void* const, const uint64_t);
void kokkosp_deallocate_data(const KSpace, const char*, const void* const, const uint64_t);
void kokkosp_begin_deep_copy(const KSpace, const char*, const void*, const KSpace, const char*, const void*, const uint64_t);
void kokkosp_end_deep_copy();
}
static int64_t now_ns() { struct timespec a; clock_gettime(CLOCK_MONOTONIC, &a); return a.tv_sec * 1000000000L + a.tv_nsec; }
struct AEv { TimedAsyncEvent ev; int64_t lo, hi; };
static std::map<std::string, AEv> async_evs;
static std::mutex async_mtx;

// program allocations: slot -> block filled with a pattern
struct WBlk { unsigned char* p; size_t n; unsigned char pat; };
static std::map<std::string, WBlk> wblks;
static std::mutex wmtx;
static void* volatile wnull = nullptr;
static bool wcheck(const WBlk& b, size_t n) { for (size_t i = 0; i < n; i += 997) if (b.p[i] != b.pat) return false; return n == 0 || b.p[n - 1] == b.pat; }
static void wfill(WBlk& b) { for (size_t i = 0; i < b.n; i += 997) b.p[i] = b.pat; if (b.n) b.p[b.n - 1] = b.pat; }

// I/O calls of the program: slots hold a file descriptor or a FILE
struct IoSlot { int fd; FILE* f; };
static std::map<std::string, IoSlot> ioslots;
static std::string iodir;
static std::string iopath(const std::string& p) { return p.empty() || p[0] == '/' || p[0] == '=' ? (p[0] == '=' ? p.substr(1) : p) : iodir + "/" + p; }
static std::string iobytes(const char* b, size_t n) { uint64_t h = 14695981039346656037ull; for (size_t i = 0; i < n; ++i) h = (h ^ (unsigned char) b[i]) * 1099511628211ull; return std::to_string(n) + ":" + std::to_string(h); }
#undef _FORTIFY_SOURCE
static int io_vfprintf(FILE* f, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfprintf(f, fmt, ap); va_end(ap); return r; }
static std::string io_op(const Fields& t)
{
    auto D = [&](size_t i) { return dec(t[i]); };
    const std::string& k = t[1];
    std::string data; long long ret = 0; int e = 0;
    if (k == "cd") { char b[4096]; iodir = getcwd(b, sizeof(b)) ? b : ""; signal(SIGPIPE, SIG_IGN); ioslots["in"] = { 0, nullptr }; mkdir("d", 0700); return iodir; }
    if (k == "tok") { // a token loop of the program around an I/O call
        std::string buf = "a b c", p = iopath(D(2)); struct stat st;
        for (char* w = strtok(&buf[0], " "); w; w = strtok(nullptr, " ")) { data += w; data += ","; if (stat(p.c_str(), &st)) data += "-"; }
        return data;
    }
    if (k == "stat" || k == "lstat") {
        std::string p = iopath(D(2)); struct stat st; memset(&st, 0, sizeof(st));
        errno = 77; ret = k == "stat" ? stat(p.c_str(), &st) : lstat(p.c_str(), &st); e = errno;
        return std::to_string(ret) + " " + std::to_string(e) + " " + std::to_string(st.st_mode) + (S_ISREG(st.st_mode) ? " " + std::to_string(st.st_size) : "");
    }
    if (k == "pipe") { int fd[2]; if (pipe2(fd, O_NONBLOCK)) return "pipe failed"; ioslots[t[2]] = { fd[0], nullptr }; ioslots[t[3]] = { fd[1], nullptr }; return "pipe"; }
    if (k == "open") { std::string p = iopath(D(3)); errno = 77; int fd = open(p.c_str(), std::stoi(t[4]), 0600); e = errno; if (fd >= 0) ioslots[t[2]] = { fd, nullptr }; return std::string(fd >= 0 ? "ok " : "fail ") + std::to_string(e); }
    if (k == "fopen") { std::string p = iopath(D(3)); errno = 77; FILE* f = fopen(p.c_str(), t[4].c_str()); e = errno; if (f) ioslots[t[2]] = { -1, f }; return std::string(f ? "ok " : "fail ") + std::to_string(e); }
    if (k == "badread" || k == "badclose") { char c; errno = 77; ret = k == "badread" ? read(900, &c, 1) : close(900); e = errno; return std::to_string(ret) + " " + std::to_string(e); }
    auto it = ioslots.find(t[2]);
    if (it == ioslots.end()) return "noslot";
    IoSlot s = it->second;
    if (k == "pfopen") { // a pipe's end opened once more through its /proc entry
        std::string p = "/proc/self/fd/" + std::to_string(s.fd); errno = 77; FILE* f = fopen(p.c_str(), "w"); e = errno; if (f) ioslots[t[3]] = { -1, f };
        char l[64]; ssize_t n = readlink(p.c_str(), l, sizeof(l)); return std::string(f ? "ok " : "fail ") + std::to_string(e) + " " + std::string(l, n > 0 ? n : 0);
    }
    if (k == "fdopen") { errno = 77; FILE* f = fdopen(s.fd, t[4].c_str()); e = errno; if (f) { ioslots.erase(it); ioslots[t[3]] = { -1, f }; } return std::string(f ? "ok " : "fail ") + std::to_string(e); }
    if (k == "freopen") {
        std::string p = t[3] == "-" ? "" : iopath(D(3));
        const char* volatile np = t[3] == "-" ? nullptr : p.c_str();
        errno = 77; FILE* f = freopen(np, t[4].c_str(), s.f); e = errno;
        if (f) it->second.f = f; else ioslots.erase(it);
        return std::string(f ? "ok " : "fail ") + std::to_string(e);
    }
    if (k == "close") { errno = 77; ret = close(s.fd); e = errno; ioslots.erase(it); return std::to_string(ret) + " " + std::to_string(e); }
    if (k == "fclose") { errno = 77; ret = fclose(s.f); e = errno; ioslots.erase(it); return std::to_string(ret) + " " + std::to_string(e); }
    if (k == "fstat") { struct stat st; memset(&st, 0, sizeof(st)); errno = 77; ret = fstat(s.f ? fileno(s.f) : s.fd, &st); e = errno; return std::to_string(ret) + " " + std::to_string(e) + " " + std::to_string(st.st_mode); }
    if (k == "seek") { errno = 77; if (s.f) rewind(s.f); else lseek(s.fd, 0, SEEK_SET); return ""; }
    if (s.f && k[0] == 'f') fseek(s.f, 0, SEEK_CUR);
    size_t n = std::stoull(t[3]), es = t.size() > 4 ? std::stoull(t[4]) : 1;
    std::vector<char> b(n * es + 1, 'x');
    for (size_t i = 0; i + 1 < b.size(); ++i) b[i] = i % 61 == 60 ? '\n' : 'a' + (i * 7 + n) % 26;
    errno = 77;
    size_t got = 0;
    if (k == "read") { ret = read(s.fd, b.data(), n); e = errno; got = ret > 0 ? ret : 0; data = iobytes(b.data(), got); }
    else if (k == "write") { ret = write(s.fd, b.data(), n); e = errno; got = ret > 0 ? ret : 0; }
    else if (k == "fread") { ret = fread(b.data(), es, n, s.f); e = errno; got = ret * es; data = iobytes(b.data(), got); }
    else if (k == "fwrite") { ret = fwrite(b.data(), es, n, s.f); e = errno; got = ret * es; }
    else if (k == "fgetc") { ret = fgetc(s.f); e = errno; got = ret != EOF; }
    else if (k == "fgets") { char* r = fgets(b.data(), n, s.f); e = errno; ret = r != nullptr; got = r ? strlen(r) : 0; data = iobytes(b.data(), got); }
    else if (k == "fprintf") { ret = fprintf(s.f, "%s %d", std::string(b.data(), n).c_str(), int(n)); e = errno; got = ret > 0 ? ret : 0; }
    else if (k == "fvprintf") { ret = io_vfprintf(s.f, "%s %g", std::string(b.data(), n).c_str(), n / 4.); e = errno; got = ret > 0 ? ret : 0; }
    if (s.f) clearerr(s.f);
    return std::to_string(got) + " " + std::to_string(ret) + " " + std::to_string(e) + " " + data;
}

struct ThreadCtx {
    int line = 0;
    std::vector<std::unique_ptr<Obj>> objs;
    std::vector<MLoop> mloops;
};

struct SnapArg { CaliperMetadataAccessInterface* db; std::string* out; int limit; int n; };
static int snap_cb(void* arg, cali_id_t id, cali_variant_t v)
{
    SnapArg* a = static_cast<SnapArg*>(arg);
    Attribute at = a->db->get_attribute(id);
    if (!a->out->empty()) *a->out += " ";
    *a->out += enc(at ? at.name() : std::string("!invalid")) + "=" + fmt_val(Variant(v));
    return ++a->n < a->limit ? 1 : 0;
}

static Channel chn(const std::string& idx)
{
    size_t i = std::stoul(idx);
    if (i >= S.channels.size()) return Channel();
    return Caliper().get_channel(S.channels[i]);
}

// a stand-in for an OpenMP runtime with a tools interface: the program says which events it reports
static struct FakeOmp {
    ompt_start_tool_result_t* tool { nullptr };
    bool running { false };
    int  finalized { 0 };
    std::atomic<int> proc { -1 };
    std::string missing;
    std::map<int, ompt_callback_t> cb;
} f_omp;

static ompt_set_result_t fomp_set_callback(ompt_callbacks_t e, ompt_callback_t fn) { f_omp.cb[e] = fn; return ompt_set_always; }
static int  fomp_get_state(ompt_wait_id_t*) { return 0; }
static int  fomp_enumerate_states(int, int*, const char**) { return 0; }
static int  fomp_get_proc_id() { return f_omp.proc; }
static void fomp_finalize_tool()
{
    if (f_omp.running) { f_omp.running = false; f_omp.cb.clear(); f_omp.tool->finalize(&f_omp.tool->tool_data); }
    ++f_omp.finalized;
}
static ompt_interface_fn_t fomp_lookup(const char* name)
{
    std::string n(name);
    if (n == f_omp.missing) return nullptr;
    if (n == "ompt_set_callback") return (ompt_interface_fn_t) fomp_set_callback;
    if (n == "ompt_get_state") return (ompt_interface_fn_t) fomp_get_state;
    if (n == "ompt_enumerate_states") return (ompt_interface_fn_t) fomp_enumerate_states;
    if (n == "ompt_get_proc_id") return (ompt_interface_fn_t) fomp_get_proc_id;
    if (n == "ompt_finalize_tool") return (ompt_interface_fn_t) fomp_finalize_tool;
    return nullptr;
}

static std::string omp_op(const Fields& t)
{
    const std::string& w = t[1];
    if (w == "start") { // [missing entry point]
        f_omp.missing = t.size() > 2 ? t[2] : "";
        f_omp.tool = ompt_start_tool(201811, "fake runtime");
        if (!f_omp.tool) return "refused";
        f_omp.running = f_omp.tool->initialize(fomp_lookup, 0, &f_omp.tool->tool_data) != 0;
        return f_omp.running ? "ok " + std::to_string(f_omp.cb.size()) : "failed";
    }
    if (w == "state") return std::string(f_omp.running ? "running " : "off ") + std::to_string(f_omp.finalized);
    auto get = [](int e) { auto it = f_omp.cb.find(e); return it == f_omp.cb.end() ? nullptr : it->second; };
    auto i = [&](size_t n) { return std::stoll(t.at(n)); };
    auto ep = [&](size_t n) { return (ompt_scope_endpoint_t) i(n); };
    ompt_data_t d { 0 }, d2 { 0 }; ompt_frame_t fr {};
    ompt_callback_t f = nullptr;
    if (w == "tb") { // type proc
        f_omp.proc = (int) i(3);
        if ((f = get(ompt_callback_thread_begin))) ((ompt_callback_thread_begin_t) f)((ompt_thread_t) i(2), &d);
    } else if (w == "te") {
        if ((f = get(ompt_callback_thread_end))) ((ompt_callback_thread_end_t) f)(&d);
    } else if (w == "pb") { // nthreads
        if ((f = get(ompt_callback_parallel_begin))) ((ompt_callback_parallel_begin_t) f)(&d, &fr, &d2, (unsigned) i(2), ompt_parallel_team, nullptr);
    } else if (w == "pe") {
        if ((f = get(ompt_callback_parallel_end))) ((ompt_callback_parallel_end_t) f)(&d, &d2, ompt_parallel_team, nullptr);
    } else if (w == "it") { // endpoint actual index flags
        if ((f = get(ompt_callback_implicit_task))) ((ompt_callback_implicit_task_t) f)(ep(2), &d, &d2, (unsigned) i(3), (unsigned) i(4), (int) i(5));
    } else if (w == "wk") { // endpoint type
        if ((f = get(ompt_callback_work))) ((ompt_callback_work_t) f)((ompt_work_t) i(3), ep(2), &d, &d2, 7, nullptr);
    } else if (w == "sy") { // endpoint kind
        if ((f = get(ompt_callback_sync_region))) ((ompt_callback_sync_region_t) f)((ompt_sync_region_t) i(3), ep(2), &d, &d2, nullptr);
    }
    return f ? "ok" : "none";
}

// ---- call trees of known functions (C44)

struct Cp { const char* d; void (*run)(void*); void* arg; };
typedef void (*cpf_t)(Cp*);
extern cpf_t volatile cpf_tab[8];
static int cpf_line[8];
#define CPF(N) extern "C" __attribute__((noinline, optnone, section("cpf_text"))) void cpf##N(Cp* c) { char d = *c->d; if (d) { ++c->d; cpf_tab[d - '0'](c); } else c->run(c->arg); asm volatile("" ::: "memory"); }
static int cpf_l0 = cpf_line[0] = __LINE__; CPF(0)
static int cpf_l1 = cpf_line[1] = __LINE__; CPF(1)
static int cpf_l2 = cpf_line[2] = __LINE__; CPF(2)
static int cpf_l3 = cpf_line[3] = __LINE__; CPF(3)
static int cpf_l4 = cpf_line[4] = __LINE__; CPF(4)
static int cpf_l5 = cpf_line[5] = __LINE__; CPF(5)
static int cpf_l6 = cpf_line[6] = __LINE__; CPF(6)
static int cpf_l7 = cpf_line[7] = __LINE__; CPF(7)
extern "C" __attribute__((noinline, optnone, section("cpf_text"))) void cpf_end(Cp* c) { c->run(nullptr); asm volatile("" ::: "memory"); }
cpf_t volatile cpf_tab[8] = { cpf0, cpf1, cpf2, cpf3, cpf4, cpf5, cpf6, cpf7 };

static std::string exec_op(const Fields& t, ThreadCtx& T);
struct CpCall { Fields f; ThreadCtx* T; std::string r; };
static void cp_exec(void* p) { auto* x = static_cast<CpCall*>(p); x->r = exec_op(x->f, *x->T); }

static std::string exec_op(const Fields& t, ThreadCtx& T)
{
    const std::string& op = t[0];
    std::string st; // text of the last string value
    std::vector<std::unique_ptr<char[]>> bufs;
    // string data is handed over in heap buffers of exactly the needed size that are gone after the call,
    // except for by-value attributes: the runtime only borrows their strings
    auto hold = [&](const char* p, size_t n, bool keep) {
        std::unique_ptr<char[]> b(new char[n ? n : 1]);
        if (n) memcpy(b.get(), p, n);
        const char* r = b.get();
        if (keep) { (new std::unique_ptr<char[]>(std::move(b)))->get(); } else bufs.push_back(std::move(b));
        return r;
    };
    bool keep = false;
    auto V = [&](size_t i) {
        Variant v = parse_val(t.at(i), st);
        if (v.type() == CALI_TYPE_STRING || v.type() == CALI_TYPE_USR) return Variant(v.type(), hold(static_cast<const char*>(v.data()), v.size(), keep), v.size());
        return v;
    };
    auto cst = [&]() { return hold(st.c_str(), st.size() + 1, keep); }; // NUL-terminated copy
    auto D = [&](size_t i) { return t.at(i) == "%" ? std::string() : dec(t.at(i)); };
    auto chk = [&](size_t i, bool ann) { // fl, handle: is the target stored by value?
        Caliper c; Attribute a;
        if (ann) { std::string n; { std::lock_guard<std::mutex> g(S.lock); n = S.annname[t.at(i)]; } a = c.get_attribute(n); keep = !a || a.store_as_value(); }
        else if (t.at(1) == "nm") { a = c.get_attribute(dec(t.at(i))); keep = a && a.store_as_value(); }
        else keep = attr_of(t.at(i)).store_as_value();
    };
    if (op == "init") { cali_init(); }
    else if (op == "cfgpreset") { cali_config_preset(D(1).c_str(), D(2).c_str()); }
    else if (op == "cfgset") { cali_config_set(D(1).c_str(), D(2).c_str()); }
    else if (op == "readenv") { cali_config_allow_read_env(std::stoi(t[1])); }
    else if (op == "attr" || op == "cattr") {
        std::vector<Attribute> ma; std::vector<Variant> mv; std::deque<std::string> ms;
        for (size_t i = 5; i + 1 < t.size(); i += 2) { ma.push_back(attr_of(t[i])); ms.emplace_back(); mv.push_back(parse_val(t[i + 1], ms.back())); }
        Attribute a;
        Caliper c;
        if (op == "attr") a = c.create_attribute(D(2), parse_type(t[3]), std::stoi(t[4]), ma.size(), ma.data(), mv.data());
        else {
            std::vector<cali_id_t> ids; std::vector<cali_variant_t> vs;
            for (auto& m : ma) ids.push_back(m.id());
            for (auto& m : mv) vs.push_back(m.c_variant());
            cali_id_t id = ids.empty() ? cali_create_attribute(D(2).c_str(), parse_type(t[3]), std::stoi(t[4]))
                                       : cali_create_attribute_with_metadata(D(2).c_str(), parse_type(t[3]), std::stoi(t[4]), ids.size(), ids.data(), vs.data());
            a = c.get_attribute(id);
        }
        { std::lock_guard<std::mutex> g(S.lock); auto& x = S.attrs[t[1]]; if (x && !(x == a)) ++S.gen; x = a; }
        return std::to_string(a.id()) + " " + dump_attr(c, a);
    }
    else if (op == "ann") {
        std::lock_guard<std::mutex> g(S.lock);
        S.store.push_back(D(2));
        S.anns[t[1]].reset(new Annotation(S.store.back().c_str(), std::stoi(t[3])));
        S.annname[t[1]] = D(2);
    }
    else if (op == "find") { // name -> id + dump by id and by name
        Caliper c; std::string n = D(1);
        cali_id_t id = cali_find_attribute(n.c_str());
        if (id == CALI_INV_ID) return "none";
        Attribute a = c.get_attribute(id), b = c.get_attribute(n);
        return std::to_string(id) + " " + dump_attr(c, a) + (a == b ? "" : " MISMATCH") + (cali_attribute_type(id) == a.type() && cali_attribute_properties(id) == a.properties() && n == cali_attribute_name(id) ? "" : " CMISMATCH");
    }
    else if (op == "allattrs") { Caliper c; std::string r; for (auto& a : c.get_all_attributes()) r += dump_attr(c, a) + "\n"; return enc(r); }
    else if (op == "begin") {
        const std::string& fl = t[1]; chk(2, fl == "an");
        if (fl == "lo") { Caliper c; c.begin(attr_of(t[2]), V(3)); }
        else if (fl == "an") { Variant v = V(3); Annotation a = ann_of(t[2]);
            switch (v.type()) { case CALI_TYPE_INT: a.begin(v.to_int()); break; case CALI_TYPE_DOUBLE: a.begin(v.to_double()); break; case CALI_TYPE_STRING: a.begin(cst()); break; default: a.begin(v); } }
        else if (fl == "id") { Variant v = V(3); cali_id_t id = attr_of(t[2]).id();
            switch (v.type()) { case CALI_TYPE_INT: cali_begin_int(id, v.to_int()); break; case CALI_TYPE_DOUBLE: cali_begin_double(id, v.to_double()); break; case CALI_TYPE_STRING: cali_begin_string(id, cst()); break; case CALI_TYPE_BOOL: cali_begin(id); break; default: Caliper().begin(attr_of(t[2]), v); } }
        else { Variant v = V(3); std::string n = D(2);
            switch (v.type()) { case CALI_TYPE_INT: cali_begin_int_byname(n.c_str(), v.to_int()); break; case CALI_TYPE_DOUBLE: cali_begin_double_byname(n.c_str(), v.to_double()); break; case CALI_TYPE_STRING: cali_begin_string_byname(n.c_str(), cst()); break; default: cali_begin_byname(n.c_str()); } }
    }
    else if (op == "set") {
        const std::string& fl = t[1]; chk(2, fl == "an");
        if (fl == "lo") { Caliper c; c.set(attr_of(t[2]), V(3)); }
        else if (fl == "an") { Variant v = V(3); Annotation a = ann_of(t[2]);
            switch (v.type()) { case CALI_TYPE_INT: a.set(v.to_int()); break; case CALI_TYPE_DOUBLE: a.set(v.to_double()); break; case CALI_TYPE_STRING: a.set(cst()); break; default: a.set(v); } }
        else if (fl == "id") { Variant v = V(3); cali_id_t id = attr_of(t[2]).id();
            switch (v.type()) { case CALI_TYPE_INT: cali_set_int(id, v.to_int()); break; case CALI_TYPE_DOUBLE: cali_set_double(id, v.to_double()); break; case CALI_TYPE_STRING: cali_set_string(id, cst()); break; default: cali_set(id, v.data(), v.size()); } }
        else { Variant v = V(3); std::string n = D(2);
            switch (v.type()) { case CALI_TYPE_INT: cali_set_int_byname(n.c_str(), v.to_int()); break; case CALI_TYPE_DOUBLE: cali_set_double_byname(n.c_str(), v.to_double()); break; default: cali_set_string_byname(n.c_str(), cst()); } }
    }
    else if (op == "end") {
        const std::string& fl = t[1];
        if (fl == "lo") Caliper().end(attr_of(t[2]));
        else if (fl == "an") ann_of(t[2]).end();
        else if (fl == "id") cali_end(attr_of(t[2]).id());
        else cali_end_byname(D(2).c_str());
    }
    else if (op == "endv") { Caliper().end_with_value_check(attr_of(t[1]), V(2)); }
    else if (op == "rb") { st = D(1); cali_begin_region(cst()); }
    else if (op == "re") cali_end_region(D(1).c_str());
    else if (op == "pb") { st = D(1); cali_begin_phase(cst()); }
    else if (op == "pe") cali_end_phase(D(1).c_str());
    else if (op == "cb") { st = D(1); cali_begin_comm_region(cst()); }
    else if (op == "ce") cali_end_comm_region(D(1).c_str());
    else if (op == "fn") T.objs.emplace_back(new ObjT<Function>(D(1).c_str()));
    else if (op == "sc") T.objs.emplace_back(new ObjT<ScopeAnnotation>(D(1).c_str()));
    else if (op == "lp") T.objs.emplace_back(new ObjT<Loop>(D(1).c_str()));
    else if (op == "lpend") { for (size_t i = T.objs.size(); i-- > 0;) if (auto* l = dynamic_cast<ObjT<Loop>*>(T.objs[i].get())) { l->o.end(); break; } }
    else if (op == "it") { for (size_t i = T.objs.size(); i-- > 0;) if (auto* l = dynamic_cast<ObjT<Loop>*>(T.objs[i].get())) { T.objs.emplace_back(new ItObj(l->o, std::stoi(t[1]))); break; } }
    else if (op == "gd") { chk(1, true); Annotation a = ann_of(t[1]); Variant v = V(2); if (v.type() == CALI_TYPE_INT) a.begin(v.to_int()); else if (v.type() == CALI_TYPE_STRING) a.begin(cst()); else a.begin(v); T.objs.emplace_back(new GuardObj(a)); }
    else if (op == "prog") { size_t i = 1; prog::Node n = prog::parse(t, i); try { prog::run(n); } catch (const prog::Ex&) { return "escaped"; } }
    else if (op == "pop") { if (!T.objs.empty()) T.objs.pop_back(); }
    else if (op == "mli") { Attribute a = Caliper().get_attribute(cali_make_loop_iteration_attribute(D(2).c_str())); std::lock_guard<std::mutex> g(S.lock); S.attrs[t[1]] = a; }
    else if (op == "mlb") { std::string n = D(1); CALI_MARK_LOOP_BEGIN(x, n.c_str()); T.mloops.push_back({ __cali_iter_x }); }
    else if (op == "mle") { CALI_MARK_LOOP_END(x); T.mloops.pop_back(); }
    else if (op == "mib") { cali_id_t __cali_iter_x = T.mloops.back().it; CALI_MARK_ITERATION_BEGIN(x, std::stoi(t[1])); }
    else if (op == "mie") { cali_id_t __cali_iter_x = T.mloops.back().it; CALI_MARK_ITERATION_END(x); }
    else if (op == "get") { Attribute a = attr_of(t[1]); std::string x = fmt_val(Caliper().get(a).value()), y = fmt_val(Variant(cali_get(a.id()))); return x == y ? x : x + " MISMATCH " + y; }
    else if (op == "xch") return fmt_val(Caliper().exchange(attr_of(t[1]), V(2)));
    else if (op == "getn") { Caliper c; Attribute a = c.get_attribute(D(1)); return a ? fmt_val(c.get(a).value()) : "none"; }
    else if (op == "chget") { Channel ch = chn(t[1]); Attribute a = attr_of(t[2]); std::string x = fmt_val(Caliper().get(ch.body(), a).value()), y = fmt_val(Variant(cali_channel_get(ch.id(), a.id()))); return x == y ? x : x + " MISMATCH " + y; }
    else if (op == "inv") { // form id: an id or handle that is no attribute
        cali_id_t id = t[2] == "-" ? CALI_INV_ID : std::stoull(t[2]); const std::string& f = t[1]; Caliper c; Attribute a = c.get_attribute(id);
        if (a) return "attribute";
        if (f == "b") cali_begin(id); else if (f == "bi") cali_begin_int(id, 4); else if (f == "bd") cali_begin_double(id, 0.5); else if (f == "bs") cali_begin_string(id, "inv");
        else if (f == "si") cali_set_int(id, 4); else if (f == "sd") cali_set_double(id, 0.5); else if (f == "ss") cali_set_string(id, "inv"); else if (f == "sv") cali_set(id, "inv", 3);
        else if (f == "e") cali_end(id);
        else if (f == "cb") c.begin(a, Variant(4)); else if (f == "cs") c.set(a, Variant("inv")); else if (f == "ce") c.end(a); else if (f == "ev") c.end_with_value_check(a, Variant(4));
        else if (f == "get") return fmt_val(Variant(cali_get(id)));
        else if (f == "name") { const char* n = cali_attribute_name(id); return !n ? "null" : enc(n); }
        else if (f == "type") return std::to_string(cali_attribute_type(id)) + " " + std::to_string(cali_attribute_properties(id));
        else if (f == "push") { cali_variant_t v = cali_make_variant_from_int(4); cali_push_snapshot(CALI_SCOPE_THREAD | CALI_SCOPE_PROCESS, 1, &id, &v); }
        else if (f == "hb") { Channel ch = chn(t[3]); c.begin(ch.body(), a, Variant(4)); } else if (f == "hs") { Channel ch = chn(t[3]); c.set(ch.body(), a, Variant(4)); }
        else return "?";
    }
    else if (op == "regor") { return enc(cali_get_current_region_or("!alt")); }
    else if (op == "ctx") { Caliper c; FixedSizeSnapshotRecord<1200> rec; c.pull_context(rec.builder()); SnapshotView v = rec.view(); return dump_entries(c, v.begin(), v.end()); }
    else if (op == "pull") { Caliper c; FixedSizeSnapshotRecord<1200> rec; Channel ch = chn(t[1]); c.pull_snapshot(ch.body(), SnapshotView(), rec.builder()); SnapshotView v = rec.view(); return dump_entries(c, v.begin(), v.end()); }
    else if (op == "cpull") { // ch lens H...: pull into heap buffers of several sizes ("32" absolute, "=-1" relative to the needed size); then search for each H
        Caliper c; cali_id_t id = std::stoul(t[1]) < S.channels.size() ? S.channels[std::stoul(t[1])] : std::stoul(t[1]);
        auto pull = [&](size_t len, size_t& need) {
            std::vector<unsigned char> b(len + 64, 0xA5); // own canary in addition to the sanitizer's
            std::unique_ptr<unsigned char[]> h(new unsigned char[len ? len : 1]);
            need = cali_channel_pull_snapshot(id, CALI_SCOPE_THREAD | CALI_SCOPE_PROCESS, len, b.data());
            size_t need2 = cali_channel_pull_snapshot(id, CALI_SCOPE_THREAD | CALI_SCOPE_PROCESS, len, h.get());
            bool ok = need == need2;
            for (size_t i = len; i < b.size(); ++i) if (b[i] != 0xA5) ok = false;
            b.resize(ok ? len : 0);
            return b;
        };
        size_t need = 0; std::vector<unsigned char> full = pull(16384, need);
        std::string r = std::to_string(need);
        if (full.empty()) return r + " MISMATCH";
        std::unique_ptr<unsigned char[]> ex(new unsigned char[need ? need : 1]); // exactly the needed size, so over-reads are caught
        memcpy(ex.get(), full.data(), need);
        std::string out; size_t br = 0; SnapArg a { &c, &out, 1 << 30, 0 };
        if (need > 0) cali_unpack_snapshot(ex.get(), &br, snap_cb, &a);
        r += " " + std::to_string(br) + " " + enc(out);
        for (int k : { 1, 2, 3, 5, 9 }) { // the callback may end the unpacking
            std::string o3; size_t b3 = 0; SnapArg a3 { &c, &o3, k, 0 };
            if (need > 0) cali_unpack_snapshot(ex.get(), &b3, snap_cb, &a3);
            r += " stop;" + std::to_string(k) + ";" + std::to_string(a3.n) + ";" + (out.compare(0, o3.size(), o3) == 0 ? "ok" : "DIFFERENT") + ";" + std::to_string(std::min(k, a.n));
        }
        std::stringstream ls(t[2]); std::string l;
        while (std::getline(ls, l, ',')) {
            size_t len = l[0] == '=' ? size_t(std::max<long>(0, long(need) + std::stol(l.substr(1)))) : std::stoul(l), n2 = 0;
            std::vector<unsigned char> b = pull(len, n2);
            std::string o2; SnapArg a2 { &c, &o2, 1 << 30, 0 };
            if (b.size() < len) { r += " len;" + l + ";MISMATCH"; continue; }
            std::unique_ptr<unsigned char[]> e2(new unsigned char[len ? len : 1]); memcpy(e2.get(), b.data(), len);
            if (len >= 2) cali_unpack_snapshot(e2.get(), nullptr, snap_cb, &a2);
            r += " len;" + l + ";" + std::to_string(len) + ";" + std::to_string(n2) + ";" + enc(o2);
        }
        for (size_t i = 3; i < t.size(); ++i) { // per attribute: find first, find all, find all limited to the first result
            Attribute at = attr_of(t[i]);
            std::string all, lim; size_t b1 = 0, b2 = 0; SnapArg aa { &c, &all, 1 << 30, 0 }, al { &c, &lim, 1, 0 };
            Variant first;
            if (need > 0) {
                first = Variant(cali_find_first_in_snapshot(ex.get(), at.id(), &b1));
                cali_find_all_in_snapshot(ex.get(), at.id(), &b2, snap_cb, &aa);
                cali_find_all_in_snapshot(ex.get(), at.id(), nullptr, snap_cb, &al);
            }
            r += " find;" + std::string(b1 == need && b2 == need ? "ok" : "BADLEN") + ";" + enc(fmt_val(first)) + ";" + enc(all) + ";" + enc(lim);
        }
        return r;
    }
    else if (op == "push" || op == "chpush") { // push n {H val}  | chpush ch n {H val}
        size_t o = op == "push" ? 1 : 2; int n = std::stoi(t[o]);
        std::vector<cali_id_t> ids; std::vector<cali_variant_t> vs;
        for (int i = 0; i < n; ++i) { Attribute a = attr_of(t[o + 1 + 2 * i]); ids.push_back(a.id()); keep = a.store_as_value(); vs.push_back(V(o + 2 + 2 * i).c_variant()); }
        if (op == "push") cali_push_snapshot(CALI_SCOPE_THREAD | CALI_SCOPE_PROCESS, n, ids.data(), vs.data());
        else cali_channel_push_snapshot(S.channels.at(std::stoul(t[1])), CALI_SCOPE_THREAD | CALI_SCOPE_PROCESS, n, ids.data(), vs.data());
    }
    else if (op == "pushn") { // pushn n start H H..: n snapshots, the first attribute counts up from start, the others repeat the value
        int n = std::stoi(t[1]); int64_t v0 = std::stoll(t[2]);
        std::vector<cali_id_t> ids; for (size_t i = 3; i < t.size(); ++i) ids.push_back(attr_of(t[i]).id());
        std::vector<cali_variant_t> vs(ids.size());
        for (int k = 0; k < n; ++k) { for (auto& v : vs) v = cali_make_variant_from_int64(v0 + k); cali_push_snapshot(CALI_SCOPE_THREAD | CALI_SCOPE_PROCESS, ids.size(), ids.data(), vs.data()); }
    }
    else if (op == "attrc") { // attrc H name type prop H2|#residue: pads the id space until the new id is congruent modulo the blackboard size
        static std::atomic<int> pad { 0 }; Caliper c; const cali_id_t M = 1021;
        cali_id_t target = t[5][0] == '#' ? std::stoull(t[5].substr(1)) : attr_of(t[5]).id();
        cali_attr_type ty = parse_type(t[3]); int prop = std::stoi(t[4]);
        auto mk = [&](cali_attr_type a, int p) { return c.create_attribute("pad." + std::to_string(pad++), a, p); };
        mk(ty, prop);
        Attribute a = mk(CALI_TYPE_INT, CALI_ATTR_SKIP_EVENTS | CALI_ATTR_ASVALUE);
        for (int k = 0; k < 3 * 1021 && (a.id() + 1) % M != target % M; ++k) a = mk(CALI_TYPE_INT, CALI_ATTR_SKIP_EVENTS | CALI_ATTR_ASVALUE);
        a = c.create_attribute(D(2), ty, prop);
        { std::lock_guard<std::mutex> g(S.lock); auto& x = S.attrs[t[1]]; if (x && !(x == a)) ++S.gen; x = a; }
        return std::to_string(a.id()) + (a.id() % M == target % M ? " hit " : " miss ") + dump_attr(c, a);
    }
    else if (op == "chnew") { // name flags k v ...
        cali_configset_t cs = cali_create_configset(nullptr);
        for (size_t i = 3; i + 1 < t.size(); i += 2) cali_configset_set(cs, D(i).c_str(), D(i + 1).c_str());
        cali_id_t id = cali_create_channel(D(1).c_str(), std::stoi(t[2]), cs);
        cali_delete_configset(cs);
        std::lock_guard<std::mutex> g(S.lock);
        S.channels.push_back(id);
        return std::to_string(S.channels.size() - 1) + " " + std::to_string(id);
    }
    else if (op == "chreg") { // register channel created otherwise: by name
        for (auto& c : Caliper().get_all_channels()) if (c.name() == D(1)) { S.channels.push_back(c.id()); return std::to_string(S.channels.size() - 1); }
        S.channels.push_back(CALI_INV_ID);
        return "none";
    }
    else if (op == "chall") { std::string r; for (auto& c : Caliper().get_all_channels()) r += enc(c.name()) + " " + std::to_string(c.is_active()) + "\n"; return enc(r); }
    else if (op == "chact") cali_activate_channel(S.channels.at(std::stoul(t[1])));
    else if (op == "chdeact") cali_deactivate_channel(S.channels.at(std::stoul(t[1])));
    else if (op == "chisact") return std::to_string(cali_channel_is_active(S.channels.at(std::stoul(t[1]))));
    else if (op == "chflush") cali_channel_flush(S.channels.at(std::stoul(t[1])), t.size() > 2 ? std::stoi(t[2]) : 0);
    else if (op == "cflush") cali_flush(t.size() > 1 ? std::stoi(t[1]) : 0);
    else if (op == "chclear") { Channel ch = chn(t[1]); Caliper().clear(&ch); }
    else if (op == "chdel") cali_delete_channel(S.channels.at(std::stoul(t[1])));
    else if (op == "chset") { keep = attr_of(t[2]).store_as_value(); Channel ch = chn(t[1]); Caliper().set(ch.body(), attr_of(t[2]), V(3)); }
    else if (op == "chbegin") { keep = attr_of(t[2]).store_as_value(); Channel ch = chn(t[1]); Caliper().begin(ch.body(), attr_of(t[2]), V(3)); }
    else if (op == "chend") { Channel ch = chn(t[1]); Caliper().end(ch.body(), attr_of(t[2])); }
    else if (op == "chdrop") { S.channels.at(std::stoul(t[1])) = CALI_INV_ID; }
    else if (op == "dump") { // flush a channel's buffers into a record dump
        Caliper c; Channel ch = chn(t[1]); std::string r;
        if (!ch) return "nochannel";
        c.flush(ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) { r += dump_entries(db, rec.begin(), rec.end()) + "\n"; });
        return enc(r);
    }
    else if (op == "dumpc") { // flush a channel: one line "thr first-attr n-values sum-of-ints" per record
        Caliper c; Channel ch = chn(t[1]); std::string r; Attribute thr = c.get_attribute("thr"), fa = attr_of(t[2]);
        if (!ch) return "nochannel";
        c.flush(ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) { r += dump_sum(db, thr, fa, rec); });
        return enc(r);
    }
    else if (op == "report") { std::ostringstream os; write_report_for_query(S.channels.at(std::stoul(t[1])), D(2).c_str(), t.size() > 3 ? std::stoi(t[3]) : 0, os); return enc(os.str()); }
    else if (op == "calidump") { // flush a channel through CaliWriter into text, like the recorder
        Caliper c; Channel ch = chn(t[1]); std::ostringstream os;
        { OutputStream stream; stream.set_stream(&os); CaliWriter w(stream);
          c.flush(ch.body(), SnapshotView(), [&](CaliperMetadataAccessInterface& db, const std::vector<Entry>& rec) { w.write_snapshot(db, rec); });
          w.write_globals(c, c.get_globals(ch.body())); }
        return enc(os.str());
    }
    else if (op == "glob") { std::string n = D(1); Variant v = V(2);
        switch (v.type()) { case CALI_TYPE_INT: cali_set_global_int_byname(n.c_str(), v.to_int()); break; case CALI_TYPE_UINT: cali_set_global_uint_byname(n.c_str(), v.to_uint()); break; case CALI_TYPE_DOUBLE: cali_set_global_double_byname(n.c_str(), v.to_double()); break; default: cali_set_global_string_byname(n.c_str(), cst()); } }
    else if (op == "globs") { Caliper c; std::vector<Entry> g = t.size() > 1 ? c.get_globals(chn(t[1]).body()) : c.get_globals(); return dump_entries(c, g.begin(), g.end()); }
    else if (op == "path") { Caliper c; Entry e = c.get_path_node(); return e.empty() ? "none" : dump_node_path(c, e.node()); }
    else if (op == "mktree") { // H n vals... under root, repeated; returns ids + dump
        Caliper c; Attribute a = attr_of(t[1]); std::deque<std::string> ms; std::vector<Variant> vs;
        for (size_t i = 2; i < t.size(); ++i) { ms.emplace_back(); vs.push_back(parse_val(t[i], ms.back())); }
        Node* n = c.make_tree_entry(a, vs.size(), vs.data());
        if (!n) return "null";
        { std::lock_guard<std::mutex> g(S.lock); S.nodes[T.line] = std::to_string(n->id()); }
        return std::to_string(n->id()) + " " + dump_node_path(c, n);
    }
    else if (op == "mkchild") { // pairs H val -> one path via single-child calls
        Caliper c; Node* n = nullptr;
        for (size_t i = 1; i + 1 < t.size(); i += 2) { n = c.make_tree_entry(attr_of(t[i]), V(i + 1), n); if (!n) return "null"; }
        { std::lock_guard<std::mutex> g(S.lock); S.nodes[T.line] = std::to_string(n->id()); }
        return std::to_string(n->id()) + " " + dump_node_path(c, n);
    }
    else if (op == "noderef") { // path of the node whose id was returned by program line n
        std::string l; { std::lock_guard<std::mutex> g(S.lock); l = S.nodes[std::stoi(t[1])]; }
        if (l.empty()) return "none";
        Caliper c; Node* n = c.node(std::stoull(l)); return n ? dump_node_path(c, n) : "none";
    }
    else if (op == "nodeid") { Caliper c; Node* n = c.node(std::stoull(t[1])); return n ? dump_node_path(c, n) : "none"; }
    else if (op == "mb") { // ptr label esize ndim dims...
        std::vector<size_t> dims; for (size_t i = 5; i < t.size(); ++i) dims.push_back(std::stoull(t[i]));
        Caliper().memory_region_begin(reinterpret_cast<void*>(strtoull(t[1].c_str(), nullptr, 16)), D(2).c_str(), std::stoull(t[3]), dims.size(), dims.data());
    }
    else if (op == "mbx") { // ptr label esize ndim dims.. {H val}: with extra attributes
        size_t nd = std::stoull(t[4]); std::vector<size_t> dims; for (size_t i = 5; i < 5 + nd; ++i) dims.push_back(std::stoull(t[i]));
        std::vector<Attribute> as; std::vector<Variant> vs;
        for (size_t i = 5 + nd; i + 1 < t.size(); i += 2) { Attribute a = attr_of(t[i]); as.push_back(a); keep = a.store_as_value(); vs.push_back(V(i + 1)); }
        Caliper().memory_region_begin(reinterpret_cast<void*>(strtoull(t[1].c_str(), nullptr, 16)), D(2).c_str(), std::stoull(t[3]), dims.size(), dims.data(), as.size(), as.data(), vs.data());
    }
    else if (op == "dtt") { cali_datatracker_track(reinterpret_cast<void*>(strtoull(t[1].c_str(), nullptr, 16)), D(2).c_str(), std::stoull(t[3])); }
    else if (op == "dtd") { std::vector<size_t> dims; for (size_t i = 5; i < t.size(); ++i) dims.push_back(std::stoull(t[i]));
        cali_datatracker_track_dimensional(reinterpret_cast<void*>(strtoull(t[1].c_str(), nullptr, 16)), D(2).c_str(), std::stoull(t[3]), dims.data(), dims.size()); }
    else if (op == "dtu") cali_datatracker_untrack(reinterpret_cast<void*>(strtoull(t[1].c_str(), nullptr, 16)));
    else if (op == "me") Caliper().memory_region_end(reinterpret_cast<void*>(strtoull(t[1].c_str(), nullptr, 16)));
    else if (op == "cm") {
        const std::string& k = t[1]; const std::string& h = t[2];
        if (k == "new") S.cms[h].reset(new ConfigManager());
        else if (k == "add") { bool r = S.cms[h]->add(D(3).c_str()); return std::string(r ? "1 " : "0 ") + (S.cms[h]->error() ? "E " : "- ") + enc(S.cms[h]->error_msg()); }
        else if (k == "addx") { ConfigManager::argmap_t m; bool r = S.cms[h]->add(D(3).c_str(), m); std::string x; for (auto& kv : m) x += " " + enc(kv.first) + "=" + enc(kv.second); return std::string(r ? "1 " : "0 ") + (S.cms[h]->error() ? "E " : "- ") + enc(S.cms[h]->error_msg()) + x; }
        else if (k == "check") { return enc(S.cms[h]->check(D(3).c_str(), t.size() > 4)); }
        else if (k == "spec") S.cms[h]->add_config_spec(S.store.emplace_back(D(3)).c_str());
        else if (k == "ospec") S.cms[h]->add_option_spec(S.store.emplace_back(D(3)).c_str());
        else if (k == "dflt") S.cms[h]->set_default_parameter(D(3).c_str(), D(4).c_str());
        else if (k == "dfltc") S.cms[h]->set_default_parameter_for_config(D(3).c_str(), D(4).c_str(), D(5).c_str());
        else if (k == "load") S.cms[h]->load(D(3).c_str());
        else if (k == "start") S.cms[h]->start();
        else if (k == "stop") S.cms[h]->stop();
        else if (k == "flush") S.cms[h]->flush();
        else if (k == "del") S.cms.erase(h);
        else if (k == "err") return std::string(S.cms[h]->error() ? "E " : "- ") + enc(S.cms[h]->error_msg());
        else if (k == "chans") { std::string r; for (auto& c : S.cms[h]->get_all_channels()) { r += enc(c->name()) + " " + std::to_string(c->is_active()) + " " + std::to_string(c->is_instantiated()); for (auto& kv : c->copy_config()) r += " " + enc(kv.first) + "=" + enc(kv.second); r += "\n"; } return enc(r); }
        else if (k == "glob") { Caliper c; std::string r; for (auto& cc : S.cms[h]->get_all_channels()) { r += enc(cc->name()); if (cc->is_instantiated()) for (auto& e : c.get_globals(cc->channel_body())) { if (e.is_immediate()) r += " " + enc(c.get_attribute(e.attribute()).name()) + "=" + enc(e.value().to_string()); else for (Node* n = e.node(); n && n->attribute() != CALI_INV_ID; n = n->parent()) r += " " + enc(c.get_attribute(n->attribute()).name()) + "=" + enc(n->data().to_string()); } r += "\n"; } return enc(r); }
        else if (k == "scheck") return enc(ConfigManager::check_config_string(D(3).c_str(), t.size() > 4));
        else if (k == "ctor") { S.cms[h].reset(new ConfigManager(D(3).c_str())); return std::string("0 ") + (S.cms[h]->error() ? "E " : "- ") + enc(S.cms[h]->error_msg()); }
        else if (k == "doc") return enc(S.cms[h]->get_documentation_for_spec(D(3).c_str()));
        else if (k == "docs") { std::string r; for (auto& x : ConfigManager::get_config_docstrings()) r += enc(x) + "\n"; return enc(r); }
        else if (k == "specs") { std::string r; for (auto& s : S.cms[h]->available_config_specs()) r += s + "\n"; return enc(r); }
    }
    else if (op == "cc") { // channel controllers: cc new h name flags k v ... | start | stop | flush | del
        const std::string& k = t[1]; const std::string& h = t[2];
        if (k == "new") { config_map_t m; for (size_t i = 5; i + 1 < t.size(); i += 2) m[D(i)] = D(i + 1); S.ccs[h].reset(new ChannelController(D(3).c_str(), std::stoi(t[4]), m)); }
        else if (k == "start") S.ccs[h]->start();
        else if (k == "stop") S.ccs[h]->stop();
        else if (k == "flush") S.ccs[h]->flush();
        else if (k == "del") S.ccs.erase(h);
        else if (k == "st") return std::to_string(S.ccs[h]->is_active()) + std::to_string(S.ccs[h]->is_instantiated());
    }
    else if (op == "rp") {
        const std::string& k = t[1]; const std::string& h = t[2];
        if (k == "new") S.rps[h].reset(new RegionProfile());
        else if (k == "start") S.rps[h]->start();
        else if (k == "stop") S.rps[h]->stop();
        else if (k == "clear") S.rps[h]->clear();
        else if (k == "del") S.rps.erase(h);
        else { auto r = k == "incl" ? S.rps[h]->inclusive_region_times(t.size() > 3 ? D(3) : "") : S.rps[h]->exclusive_region_times(t.size() > 3 ? D(3) : "");
            char b[80]; snprintf(b, sizeof b, "%.17g %.17g", std::get<1>(r), std::get<2>(r)); return enc(dump_map(std::get<0>(r))) + " " + b; }
    }
    else if (op == "rtcfg") { // rtcfg <default|channel> command...: configuration of the process or a channel
        RuntimeConfig rc = t[1] == "default" ? RuntimeConfig::get_default_config() : chn(t[1]).config();
        return conf_cmd(rc, t, 2);
    }
    else if (op == "busy") { // spin for n microseconds
        struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
        long us = std::stol(t[1]);
        do { clock_gettime(CLOCK_MONOTONIC, &b); } while ((b.tv_sec - a.tv_sec) * 1000000L + (b.tv_nsec - a.tv_nsec) / 1000 < us);
    }
    else if (op == "mwork") { // allocate and free for n microseconds
        struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
        long us = std::stol(t[1]); unsigned k = 0; void* p[8] = {nullptr};
        do { for (int i = 0; i < 20; ++i, ++k) { free(p[k % 8]); p[k % 8] = malloc(1 + (k * 2654435761u) % 3000); } clock_gettime(CLOCK_MONOTONIC, &b); } while ((b.tv_sec - a.tv_sec) * 1000000L + (b.tv_nsec - a.tv_nsec) / 1000 < us);
        for (void* x : p) free(x);
    }
    else if (op == "kb") {
        std::string n = D(2); uint64_t id = 0;
        if (t[1] == "pf") kokkosp_begin_parallel_for(n.c_str(), 0, &id);
        else if (t[1] == "pr") kokkosp_begin_parallel_reduce(n.c_str(), 0, &id);
        else if (t[1] == "ps") kokkosp_begin_parallel_scan(n.c_str(), 0, &id);
        else if (t[1] == "fe") kokkosp_begin_fence(n.c_str(), 0, &id);
        else { std::vector<char> b(n.begin(), n.end()); b.push_back(0); kokkosp_push_profile_region(b.data()); }
    }
    else if (op == "ke") {
        if (t[1] == "pf") kokkosp_end_parallel_for(0);
        else if (t[1] == "pr") kokkosp_end_parallel_reduce(0);
        else if (t[1] == "ps") kokkosp_end_parallel_scan(0);
        else if (t[1] == "fe") kokkosp_end_fence(0);
        else kokkosp_pop_profile_region();
    }
    else if (op == "ka" || op == "kd") {
        KSpace sp; memset(&sp, 0, sizeof(sp)); strncpy(sp.name, D(1).c_str(), 63);
        const void* p = reinterpret_cast<void*>(strtoull(t[3].c_str(), nullptr, 16));
        (op == "ka" ? kokkosp_allocate_data : kokkosp_deallocate_data)(sp, D(2).c_str(), p, std::stoull(t[4]));
    }
    else if (op == "kc") {
        KSpace sp; memset(&sp, 0, sizeof(sp)); strcpy(sp.name, "Host");
        kokkosp_begin_deep_copy(sp, "dst", reinterpret_cast<void*>(strtoull(t[1].c_str(), nullptr, 16)), sp, "src", reinterpret_cast<void*>(strtoull(t[2].c_str(), nullptr, 16)), std::stoull(t[3]));
        kokkosp_end_deep_copy();
    }
    else if (op == "io") return io_op(t);
    else if (op == "omp") return omp_op(t);
    else if (op == "wm") { // kind slot n [esize] -> address errno
        size_t n = std::stoull(t[3]), es = t.size() > 4 ? std::stoull(t[4]) : 1; WBlk b { nullptr, n * es, (unsigned char) (n * 7 + 3) };
        errno = 77;
        b.p = static_cast<unsigned char*>(t[1] == "c" ? calloc(n, es) : t[1] == "r" ? realloc(wnull, n) : malloc(n));
        int e = errno;
        if (t[1] == "c") for (size_t i = 0; i < b.n; i += 991) if (b.p[i]) return "calloc: not zero";
        wfill(b);
        { std::lock_guard<std::mutex> g(wmtx); wblks[t[2]] = b; }
        char buf[64]; snprintf(buf, sizeof(buf), "%llx %d", (unsigned long long) b.p, e); return buf;
    }
    else if (op == "wr" || op == "wf") { // slot [n] -> [address] errno contents
        WBlk b; { std::lock_guard<std::mutex> g(wmtx); b = wblks.at(t[1]); }
        bool ok = wcheck(b, b.n);
        size_t n = op == "wr" ? std::stoull(t[2]) : 0; int e;
        if (op == "wf") { errno = 77; free(b.p); e = errno; std::lock_guard<std::mutex> g(wmtx); wblks.erase(t[1]); b.p = nullptr; }
        else {
            errno = 77; b.p = static_cast<unsigned char*>(realloc(b.p, n)); e = errno;
            ok = ok && (n < b.n ? (n == 0 || b.p[0] == b.pat) : wcheck(b, b.n)); b.n = n; wfill(b);
            std::lock_guard<std::mutex> g(wmtx); wblks[t[1]] = b;
        }
        char buf[64]; snprintf(buf, sizeof(buf), "%llx %d%s", (unsigned long long) b.p, e, ok ? "" : " contents differ"); return buf;
    }
    else if (op == "wx") { // failing allocations
        volatile size_t big = size_t(1) << 62; errno = 77;
        void* volatile p = t[1] == "c" ? calloc(big, 2) : t[1] == "r" ? realloc(wnull, big) : malloc(big);
        int e = errno; bool got = p != nullptr; free(p);
        return std::string(got ? "got" : "null") + " " + std::to_string(e);
    }
    else if (op == "pself") { char buf[32]; snprintf(buf, sizeof(buf), "%llu", (unsigned long long) pthread_self()); return buf; }
    else if (op == "ab") {
        std::string m = D(2);
        int64_t lo = now_ns(); TimedAsyncEvent ev = TimedAsyncEvent::begin(m.c_str()); int64_t hi = now_ns();
        std::lock_guard<std::mutex> g(async_mtx); async_evs[t[1]] = AEv { ev, lo, hi };
    }
    else if (op == "ae") { // returns the bounds of the event's duration
        AEv a; { std::lock_guard<std::mutex> g(async_mtx); a = async_evs.at(t[1]); }
        int64_t lo = now_ns(); a.ev.end(); int64_t hi = now_ns();
        return std::to_string(lo - a.hi) + " " + std::to_string(hi - a.lo);
    }
    else if (op == "now") { struct timespec a; clock_gettime(CLOCK_MONOTONIC, &a); return std::to_string(a.tv_sec * 1000000000L + a.tv_nsec); }
    else if (op == "yield") std::this_thread::yield();
    else if (op == "call") { // digits op...: executes the op at the end of a chain of calls of known functions
        CpCall x { Fields(t.begin() + 2, t.end()), &T, "" };
        Cp c { t[1].c_str() + 1, cp_exec, &x };
        cpf_tab[t[1][0] - '0'](&c);
        return x.r;
    }
    else if (op == "cpaddr") { // address and line of each of the functions
        std::string r;
        for (int i = 0; i < 8; ++i) r += std::to_string(reinterpret_cast<uintptr_t>(cpf_tab[i])) + " " + std::to_string(cpf_line[i]) + " ";
        return r + std::to_string(reinterpret_cast<uintptr_t>(&cpf_end));
    }
    else if (op == "cpset") { // begin|set handle digit offset: an address inside one of the functions
        uintptr_t a = reinterpret_cast<uintptr_t>(cpf_tab[std::stoi(t[3])]) + std::stoi(t[4]); uint64_t u = a;
        Variant v(CALI_TYPE_ADDR, &u, sizeof(u));
        Attribute at = attr_of(t[2]);
        if (t[1] == "begin") Caliper().begin(at, v); else Caliper().set(at, v);
    }
    else if (op == "sub") { // runs the given lines on a new thread
        std::thread th([&] { ThreadCtx X; X.line = T.line; std::istringstream is(D(1)); std::string l; while (std::getline(is, l)) exec_op(split_ws(l), X); while (!X.objs.empty()) X.objs.pop_back(); });
        th.join();
    }
    else if (op == "isinit") return std::to_string(cali_is_initialized());
    else if (op == "fini") { Caliper::release(); }
    else return "?op";
    return "";
}

struct Worker {
    std::thread th;
    std::mutex m;
    std::condition_variable cv;
    std::function<void(ThreadCtx&)> job;
    bool has_job = false, done = false, quit = false;

    void start()
    {
        th = std::thread([this] {
            ThreadCtx T;
            while (true) {
                std::function<void(ThreadCtx&)> j;
                {
                    std::unique_lock<std::mutex> l(m);
                    cv.wait(l, [this] { return has_job || quit; });
                    if (!has_job) break;
                    j = job;
                }
                j(T);
                { std::lock_guard<std::mutex> l(m); has_job = false; done = true; }
                cv.notify_all();
            }
            while (!T.objs.empty()) T.objs.pop_back();
        });
    }
    void post(std::function<void(ThreadCtx&)> j) { { std::lock_guard<std::mutex> l(m); job = j; has_job = true; done = false; } cv.notify_all(); }
    void wait() { std::unique_lock<std::mutex> l(m); cv.wait(l, [this] { return done; }); }
    void stop() { { std::lock_guard<std::mutex> l(m); quit = true; } cv.notify_all(); th.join(); }
};

// program text: "<tid> <op> ..." executed in the given order on the given thread;
//   "P <tid> <op> ..." queued for the next "RUN": all queued lists run concurrently
//   "T <tid>": join thread <tid>; "EXIT <code>", "_EXIT <code>", "ABORT"
//   "ENV k v" before anything else
static int run_program(const std::string& text)
{
    std::vector<std::string> lines;
    { std::istringstream is(text); std::string l; while (std::getline(is, l)) lines.push_back(l); }
    std::vector<std::string> res(lines.size());
    std::map<int, std::unique_ptr<Worker>> workers;
    ThreadCtx T0;
    int rf = open("res", O_CREAT | O_TRUNC | O_WRONLY, 0644);
    size_t written = 0;
    auto put_res = [&](const std::string& s) { // the program's own I/O calls only: this one bypasses the library functions
        for (size_t o = 0; o < s.size();) { long n = syscall(SYS_write, rf, s.data() + o, s.size() - o); if (n <= 0) break; o += n; }
    };
    auto write_res = [&](size_t upto) { std::string s; for (; written < upto; ++written) if (!res[written].empty()) s += std::to_string(written) + " " + res[written] + "\n"; put_res(s); };
    auto worker = [&](int tid) -> Worker& { auto& w = workers[tid]; if (!w) { w.reset(new Worker); w->start(); } return *w; };
    std::map<int, std::vector<size_t>> queued;
    int code = 0;
    size_t i = 0;
    for (; i < lines.size(); ++i) {
        Fields t = split_ws(lines[i]);
        if (t.empty()) continue;
        if (t[0] == "ENV") { setenv(dec(t[1]).c_str(), t.size() > 2 ? dec(t[2]).c_str() : "", 1); continue; }
        if (t[0] == "EXIT") { code = std::stoi(t[1]); break; }
        if (t[0] == "_EXIT") { write_res(i); fflush(stdout); _exit(std::stoi(t[1])); }
        if (t[0] == "ABORT") { write_res(i); fflush(stdout); kill(getpid(), SIGKILL); }
        if (t[0] == "T") { int tid = std::stoi(t[1]); auto it = workers.find(tid); if (it != workers.end()) { it->second->stop(); workers.erase(it); } continue; }
        if (t[0] == "P") { queued[std::stoi(t[1])].push_back(i); continue; }
        if (t[0] == "RUN") {
            std::atomic<int> waiting { int(queued.size()) };
            std::map<int, std::vector<std::pair<size_t, Fields>>> prog;
            for (auto& q : queued) for (size_t k : q.second) { Fields x = split_ws(lines[k]); x.erase(x.begin(), x.begin() + 2); prog[q.first].emplace_back(k, x); }
            for (auto& q : prog) {
                auto* ops = &q.second;
                worker(q.first).post([ops, &res, &waiting](ThreadCtx& T) {
                    --waiting;
                    while (waiting.load() > 0) ;
                    for (auto& o : *ops) { T.line = int(o.first); res[o.first] = exec_op(o.second, T); }
                });
            }
            for (auto& q : prog) worker(q.first).wait();
            queued.clear();
            continue;
        }
        int tid = std::stoi(t[0]);
        t.erase(t.begin());
        if (t.empty()) continue;
        if (tid == 0) { T0.line = int(i); res[i] = exec_op(t, T0); }
        else { Worker& w = worker(tid); w.post([&](ThreadCtx& T) { T.line = int(i); res[i] = exec_op(t, T); }); w.wait(); }
        if (written < i && i % 64 == 0) write_res(i);
    }
    while (!workers.empty()) { workers.begin()->second->stop(); workers.erase(workers.begin()); }
    write_res(lines.size());
    put_res("DONE\n");
    while (!T0.objs.empty()) T0.objs.pop_back();
    S.cms.clear(); S.rps.clear(); S.ccs.clear(); S.anns.clear();
    return code;
}

} // namespace rt

// run <dir> <cpu seconds> <wall seconds> <program>
static int proto_fd = -1;

static Fields do_run(const Fields& f)
{
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        if (chdir(f[1].c_str())) _exit(120);
        int o = open("out", O_CREAT | O_TRUNC | O_WRONLY, 0644), e = open("err", O_CREAT | O_TRUNC | O_WRONLY, 0644), n = open("/dev/null", O_RDONLY);
        dup2(n, 0); dup2(o, 1); dup2(e, 2);
        close(proto_fd); // other descriptors may belong to libraries (libunwind checks memory through a pipe of its own)
        int cpu = std::stoi(f[2]);
        struct rlimit rl { rlim_t(cpu), rlim_t(cpu + 5) };
        setrlimit(RLIMIT_CPU, &rl);
        struct rlimit fl { 1u << 30, 1u << 30 };
        setrlimit(RLIMIT_FSIZE, &fl);
        alarm(std::stoi(f[3]));
        int rc = 0;
        try { rc = rt::run_program(f[4]); } catch (const std::exception& e) { fprintf(stderr, "uncaught exception: %s\n", e.what()); fflush(stderr); _exit(98); }
        exit(rc);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    std::string r = WIFEXITED(st) ? "exit " + std::to_string(WEXITSTATUS(st)) : "signal " + std::to_string(WTERMSIG(st));
    return { "ok", r };
}

int main(int argc, char** argv)
{
    signal(SIGPIPE, SIG_DFL);
    FILE* in = stdin;
    proto_fd = dup(1);
    FILE* out = fdopen(proto_fd, "w");
    // keep stray output of the code under test away from the protocol
    dup2(2, 1);
    Fields f;
    while (read_request(in, f)) {
        Fields r;
        const std::string& c = f[0];
        try {
            if (c == "query") r = do_query(f);
            else if (c == "exec") r = do_exec(f);
            else if (c == "read") r = do_read(f);
            else if (c == "readsum") r = do_readsum(f);
            else if (c == "rewrite") r = do_rewrite(f);
            else if (c == "write") r = do_write(f);
            else if (c == "parse") r = do_parse(f);
            else if (c == "agg") r = do_agg(f);
            else if (c == "profile") r = do_profile(f);
            else if (c == "variants") r = do_variants(f);
            else if (c == "fromstr") r = do_fromstr(f);
            else if (c == "names") r = do_names(f);
            else if (c == "pack") r = do_pack(f);
            else if (c == "conf") r = do_conf(f);
            else if (c == "run") r = do_run(f);
            else r = { "bad_request" };
        } catch (const std::exception& e) {
            r = { "exception", e.what() };
        }
        write_response(out, r);
    }
    return 0;
}
