// Interprets one MPI program per rank (argv[1].<rank>) and logs every MPI call and
// every message it saw to argv[2].<rank>.  Channels come from argv[3].
#include <caliper/cali.h>
#include <caliper/cali-mpi.h>
#include <caliper/ConfigManager.h>
#include <caliper/MpiChannelManager.h>
#include <chrono>
#include <memory>

#include <mpi.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
using std::string; using std::vector;

static FILE* lg; static int opi = -1, rank_ = 0;
static void C(const char* f) { fprintf(lg, "C %d %s\n", opi, f); }

struct Slot {
    MPI_Request req = MPI_REQUEST_NULL; vector<char> buf; int kind = 0; /*0 none 1 send 2 recv*/ bool pers = false, active = false; long msg = -1; size_t bytes = 0;
};
static std::map<int, Slot> S;
static vector<MPI_Comm> comms; static vector<MPI_Datatype> types;
static std::map<string, cali_id_t> chans;
static cali_id_t a_step;
static std::map<string, std::unique_ptr<cali::ConfigManager>> mgrs; static std::map<string, std::unique_ptr<cali::MpiChannelManager>> mcms;
static long now() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static size_t span(MPI_Datatype t, int n) { MPI_Aint lb, ex; PMPI_Type_get_extent(t, &lb, &ex); return (size_t)ex * (n < 1 ? 1 : n) + 64; }
static void fill(vector<char>& b, long msg) { int v = (int)msg; if (b.size() >= sizeof v) memcpy(b.data(), &v, sizeof v); }
static void gotrecv(Slot& s) {      // after a receive in s completed
    if (s.kind != 2 || (s.pers && !s.active)) return;
    long m = s.msg; if (m == -2) return;
    if (m < 0) { int v; memcpy(&v, s.buf.data(), sizeof v); m = v; }
    fprintf(lg, "R %d %ld\n", opi, m);
}
static void fin(Slot& s) { if (s.kind) { gotrecv(s); s.active = false; if (!s.pers) s.kind = 0; } }

static void mkchan(const char* when, const char* file) {
    std::ifstream f(file); string l;
    while (std::getline(f, l)) {
        std::istringstream is(l); string w, n; is >> w >> n;
        if (w == string("m") + when) {
            auto& m = mgrs[n]; m.reset(new cali::ConfigManager); string cfg; is >> cfg; m->add(cfg.c_str());
            if (m->error()) { fprintf(stderr, "vmpi: config error %s\n", m->error_msg().c_str()); _exit(67); }
            m->start();
        }
        if (w != when) continue;
        auto cs = cali_create_configset(NULL); string kv;
        while (is >> kv) { for (auto& ch : kv) if (ch == 1) ch = ' '; auto p = kv.find('='); cali_configset_set(cs, kv.substr(0, p).c_str(), kv.substr(p + 1).c_str()); }
        chans[n] = cali_create_channel(n.c_str(), 0, cs); cali_delete_configset(cs);
    }
}

static int any_active(const vector<int>& ks) { for (int k : ks) if (S[k].req != MPI_REQUEST_NULL && (!S[k].pers || S[k].active)) return 1; return 0; }

static void complete(const string& mode, int st, const vector<int>& ks, int extra) {
    int n = ks.size();
    vector<MPI_Request> rq(n); for (int i = 0; i < n; ++i) rq[i] = S[ks[i]].req;
    vector<MPI_Status> sts(n + 1);
    auto put = [&]() { for (int i = 0; i < n; ++i) S[ks[i]].req = rq[i]; };
    auto spin = []() { usleep(300); };
    MPI_Status* S1 = st ? sts.data() : MPI_STATUS_IGNORE; MPI_Status* SN = st ? sts.data() : MPI_STATUSES_IGNORE;
    if (mode == "wait") {
        for (int i = 0; i < n; ++i) { C("MPI_Wait"); MPI_Wait(&rq[i], S1); fin(S[ks[i]]); }
    } else if (mode == "test") {
        for (int i = 0; i < n; ++i) { int fl = 0; while (!fl) { C("MPI_Test"); MPI_Test(&rq[i], &fl, S1); if (!fl) spin(); } fin(S[ks[i]]); }
    } else if (mode == "waitall") {
        C("MPI_Waitall"); MPI_Waitall(n, rq.data(), SN); for (int k : ks) fin(S[k]);
    } else if (mode == "testall") {
        int fl = 0; while (!fl) { C("MPI_Testall"); MPI_Testall(n, rq.data(), &fl, SN); if (!fl) spin(); } for (int k : ks) fin(S[k]);
    } else if (mode == "waitany" || mode == "testany") {
        while (any_active(ks) || extra-- > 0) {
            int ix = -1, fl = 1;
            if (mode == "waitany") { C("MPI_Waitany"); MPI_Waitany(n, rq.data(), &ix, S1); }
            else { C("MPI_Testany"); MPI_Testany(n, rq.data(), &ix, &fl, S1); }
            put();
            if (fl && ix != MPI_UNDEFINED) fin(S[ks[ix]]); else spin();
        }
    } else {
        while (any_active(ks) || extra-- > 0) {
            int oc = 0; vector<int> ix(n + 1);
            if (mode == "waitsome") { C("MPI_Waitsome"); MPI_Waitsome(n, rq.data(), &oc, ix.data(), SN); }
            else { C("MPI_Testsome"); MPI_Testsome(n, rq.data(), &oc, ix.data(), SN); }
            put();
            if (oc != MPI_UNDEFINED) for (int j = 0; j < oc; ++j) fin(S[ks[ix[j]]]);
            if (oc <= 0) spin();
        }
    }
    put();
}

static void coll(const string& n, MPI_Comm cm, MPI_Datatype t, int cnt, int root, int inpl, int nul) {
    int sz, rk; PMPI_Comm_size(cm, &sz); PMPI_Comm_rank(cm, &rk);
    size_t bsz = span(t, cnt * (sz + 1) + sz * sz) + 4 * (cnt * (sz + 1) + sz * sz); vector<char> sb(bsz), rb(bsz);
    vector<int> cn(sz), ds(sz); int off = 0;
    for (int i = 0; i < sz; ++i) { cn[i] = cnt + i; ds[i] = off + (nul ? 1 : 0); off += cn[i]; }   // displacements differ from counts
    for (int i = 0; i < sz; ++i) if (nul) ds[i] = ds[i] - 1;
    vector<int> eq(sz, cnt), eds(sz); for (int i = 0; i < sz; ++i) eds[i] = i * cnt;
    void* s = sb.data(); void* r = rb.data(); bool isroot = rk == root;
    MPI_Datatype N = MPI_DATATYPE_NULL;
    string f = "MPI_" + n; C(f.c_str());
    if (n == "Barrier") MPI_Barrier(cm);
    else if (n == "Bcast") MPI_Bcast(s, cnt, t, root, cm);
    else if (n == "Scatter") { if (!isroot && nul) MPI_Scatter(nullptr, 0, N, r, cnt, t, root, cm); else MPI_Scatter(s, cnt, t, isroot && inpl ? MPI_IN_PLACE : r, cnt, t, root, cm); }
    else if (n == "Scatterv") { if (!isroot && nul) MPI_Scatterv(nullptr, nullptr, nullptr, N, r, cn[rk], t, root, cm); else MPI_Scatterv(s, cn.data(), ds.data(), t, isroot && inpl ? MPI_IN_PLACE : r, cn[rk], t, root, cm); }
    else if (n == "Gather") { if (isroot) { if (inpl) MPI_Gather(MPI_IN_PLACE, 0, N, r, cnt, t, root, cm); else MPI_Gather(s, cnt, t, r, cnt, t, root, cm); } else if (nul) MPI_Gather(s, cnt, t, nullptr, 0, N, root, cm); else MPI_Gather(s, cnt, t, r, cnt, t, root, cm); }
    else if (n == "Gatherv") { if (isroot) { if (inpl) MPI_Gatherv(MPI_IN_PLACE, 0, N, r, cn.data(), ds.data(), t, root, cm); else MPI_Gatherv(s, cn[rk], t, r, cn.data(), ds.data(), t, root, cm); } else if (nul) MPI_Gatherv(s, cn[rk], t, nullptr, nullptr, nullptr, N, root, cm); else MPI_Gatherv(s, cn[rk], t, r, cn.data(), ds.data(), t, root, cm); }
    else if (n == "Allgather") { if (inpl) MPI_Allgather(MPI_IN_PLACE, 0, N, r, cnt, t, cm); else MPI_Allgather(s, cnt, t, r, cnt, t, cm); }
    else if (n == "Allgatherv") { if (inpl) MPI_Allgatherv(MPI_IN_PLACE, 0, N, r, cn.data(), ds.data(), t, cm); else MPI_Allgatherv(s, cn[rk], t, r, cn.data(), ds.data(), t, cm); }
    else if (n == "Alltoall") { if (inpl) MPI_Alltoall(MPI_IN_PLACE, 0, N, r, cnt, t, cm); else MPI_Alltoall(s, cnt, t, r, cnt, t, cm); }
    else if (n == "Alltoallv") { // pairwise equal counts; displacements spaced
        vector<int> d2(sz); for (int i = 0; i < sz; ++i) d2[i] = i * cnt;
        if (inpl) MPI_Alltoallv(MPI_IN_PLACE, nullptr, nullptr, N, r, eq.data(), d2.data(), t, cm); else MPI_Alltoallv(s, eq.data(), d2.data(), t, r, eq.data(), d2.data(), t, cm); }
    else if (n == "Reduce") { if (isroot) MPI_Reduce(inpl ? MPI_IN_PLACE : s, r, cnt, MPI_INT, MPI_SUM, root, cm); else MPI_Reduce(s, nul ? nullptr : r, cnt, MPI_INT, MPI_SUM, root, cm); }
    else if (n == "Allreduce") MPI_Allreduce(inpl ? MPI_IN_PLACE : s, r, cnt, MPI_INT, MPI_SUM, cm);
    else if (n == "Scan") MPI_Scan(inpl ? MPI_IN_PLACE : s, r, cnt, MPI_INT, MPI_SUM, cm);
    else if (n == "Exscan") MPI_Exscan(inpl ? MPI_IN_PLACE : s, r, cnt, MPI_INT, MPI_SUM, cm);
    else if (n == "Reduce_scatter") { MPI_Reduce_scatter(inpl ? MPI_IN_PLACE : s, r, cn.data(), MPI_INT, MPI_SUM, cm); }
    else if (n == "Reduce_scatter_block") MPI_Reduce_scatter_block(s, r, cnt, MPI_INT, MPI_SUM, cm);
    else if (n == "Iallreduce") { MPI_Request q; MPI_Iallreduce(s, r, cnt, MPI_INT, MPI_SUM, cm, &q); C("MPI_Wait"); MPI_Wait(&q, MPI_STATUS_IGNORE); }
    else if (n == "Ibarrier") { MPI_Request q; MPI_Ibarrier(cm, &q); C("MPI_Waitall"); MPI_Waitall(1, &q, MPI_STATUSES_IGNORE); }
    else if (n == "Comm_rank") { int x; MPI_Comm_rank(cm, &x); }
    else if (n == "Comm_size") { int x; MPI_Comm_size(cm, &x); }
    else if (n == "Iprobe") { int x; MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, cm, &x, MPI_STATUS_IGNORE); }
    else { fprintf(stderr, "vmpi: bad op %s\n", n.c_str()); _exit(66); }
}

int main(int argc, char** argv) {
    int pr = 0; // rank is not known before MPI_Init; log opened afterwards
    long tm0 = now();
    mkchan("pre", argv[3]);
    if (string(argv[4]) == "thread") MPI_Init_thread(&argc, &argv, MPI_THREAD_SINGLE, &pr); else MPI_Init(&argc, &argv);
    PMPI_Comm_rank(MPI_COMM_WORLD, &rank_);
    lg = fopen((string(argv[2]) + "." + std::to_string(rank_)).c_str(), "w");
    fprintf(lg, "T -1 %ld %ld\n", tm0, now());
    mkchan("post", argv[3]);
    a_step = cali_create_attribute("step", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS);
    comms = { MPI_COMM_WORLD, MPI_COMM_SELF };
    types = { MPI_INT, MPI_CHAR, MPI_DOUBLE, MPI_SHORT, MPI_BYTE };
    vector<char> bb(1 << 22); PMPI_Buffer_attach(bb.data(), bb.size());
    std::ifstream f(string(argv[1]) + "." + std::to_string(rank_)); string l;
    while (std::getline(f, l)) {
        if (opi >= 0) fprintf(lg, "T %d %ld %ld\n", opi, tm0, now());
        ++opi; tm0 = now();
        std::istringstream is(l); string o; is >> o;
        auto I = [&]() { long v = 0; is >> v; return v; };
        if (o == "step") { cali_set_int(a_step, I()); }
        else if (o == "rb") { string n; is >> n; cali_begin_region(n.c_str()); }
        else if (o == "re") { string n; is >> n; cali_end_region(n.c_str()); }
        else if (o == "cb") { string n; is >> n; cali_begin_comm_region(n.c_str()); }
        else if (o == "ce") { string n; is >> n; cali_end_comm_region(n.c_str()); }
        else if (o == "on") { string n; is >> n; cali_activate_channel(chans[n]); }
        else if (o == "off") { string n; is >> n; cali_deactivate_channel(chans[n]); }
        else if (o == "spin") { long us = I(), e = now() + us * 1000; while (now() < e); }
        else if (o == "mflush") { string n; is >> n; mgrs[n]->flush(); }
        else if (o == "mcm") {
            string n, cfg; is >> n; int c = I(); is >> cfg; auto& m = mcms[n]; m.reset(new cali::MpiChannelManager(comms[c])); cali::ConfigManager g; g.add(cfg.c_str());
            if (g.error()) { fprintf(stderr, "vmpi: config error %s\n", g.error_msg().c_str()); _exit(67); }
            m->add(g); m->start();
        }
        else if (o == "mcmflush") { string n; is >> n; mcms[n]->collective_flush(); }
        else if (o == "bar") PMPI_Barrier(MPI_COMM_WORLD);
        else if (o == "type") { string k; is >> k; int n = I(); MPI_Datatype t; if (k == "contig") PMPI_Type_contiguous(n, MPI_INT, &t); else if (k == "vector") PMPI_Type_vector(n, 2, 3, MPI_INT, &t); else { int bl[2] = {1, n}; MPI_Aint dp[2] = {0, 8}; MPI_Datatype ts[2] = {MPI_INT, MPI_DOUBLE}; PMPI_Type_create_struct(2, bl, dp, ts, &t); } PMPI_Type_commit(&t); types.push_back(t); }
        else if (o == "split") { int c = I(), col = I(), key = I(); MPI_Comm n; C("MPI_Comm_split"); MPI_Comm_split(comms[c], col < 0 ? MPI_UNDEFINED : col, key, &n); comms.push_back(n); }
        else if (o == "dup") { int c = I(); MPI_Comm n; C("MPI_Comm_dup"); MPI_Comm_dup(comms[c], &n); comms.push_back(n); }
        else if (o == "nocomm") comms.push_back(MPI_COMM_NULL);
        else if (o == "cfree") { int c = I(); C("MPI_Comm_free"); MPI_Comm_free(&comms[c]); }
        else if (o == "send") {
            string fn; is >> fn; int k = I(), c = I(); MPI_Datatype t = types[I()]; int n = I(), d = I(), tag = I(); long m = I();
            Slot& s = S[k]; s = Slot(); s.buf.assign(span(t, n), 0); fill(s.buf, m); s.msg = m;
            void* b = s.buf.data(); MPI_Comm cm = comms[c];
            C(("MPI_" + fn).c_str()); fprintf(lg, "S %d %ld\n", opi, m);
            if (fn == "Send") MPI_Send(b, n, t, d, tag, cm); else if (fn == "Bsend") MPI_Bsend(b, n, t, d, tag, cm); else if (fn == "Ssend") MPI_Ssend(b, n, t, d, tag, cm); else if (fn == "Rsend") MPI_Rsend(b, n, t, d, tag, cm);
            else { s.kind = 1; if (fn == "Isend") MPI_Isend(b, n, t, d, tag, cm, &s.req); else if (fn == "Ibsend") MPI_Ibsend(b, n, t, d, tag, cm, &s.req); else if (fn == "Issend") MPI_Issend(b, n, t, d, tag, cm, &s.req); else if (fn == "Irsend") MPI_Irsend(b, n, t, d, tag, cm, &s.req); }
        } else if (o == "sinit") {
            string fn; is >> fn; int k = I(), c = I(); MPI_Datatype t = types[I()]; int n = I(), d = I(), tag = I(); long m = I();
            Slot& s = S[k]; s = Slot(); s.buf.assign(span(t, n), 0); fill(s.buf, m); s.msg = m; s.kind = 1; s.pers = true;
            void* b = s.buf.data(); MPI_Comm cm = comms[c]; C(("MPI_" + fn).c_str());
            if (fn == "Send_init") MPI_Send_init(b, n, t, d, tag, cm, &s.req); else if (fn == "Bsend_init") MPI_Bsend_init(b, n, t, d, tag, cm, &s.req); else if (fn == "Rsend_init") MPI_Rsend_init(b, n, t, d, tag, cm, &s.req); else MPI_Ssend_init(b, n, t, d, tag, cm, &s.req);
        } else if (o == "recv") {
            int c = I(); MPI_Datatype t = types[I()]; int n = I(), src = I(), tag = I(); long m = I(); int st = I();
            Slot s; s.buf.assign(span(t, n), 0); s.kind = 2; s.msg = m; MPI_Status x; C("MPI_Recv");
            MPI_Recv(s.buf.data(), n, t, src < 0 ? MPI_ANY_SOURCE : src, tag < 0 ? MPI_ANY_TAG : tag, comms[c], st ? &x : MPI_STATUS_IGNORE); gotrecv(s);
        } else if (o == "irecv" || o == "rinit") {
            int k = I(), c = I(); MPI_Datatype t = types[I()]; int n = I(), src = I(), tag = I(); long m = I();
            Slot& s = S[k]; s = Slot(); s.buf.assign(span(t, n), 0); s.kind = 2; s.msg = m; s.pers = o == "rinit";
            if (src < 0) src = MPI_ANY_SOURCE; if (tag < 0) tag = MPI_ANY_TAG;
            if (s.pers) { C("MPI_Recv_init"); MPI_Recv_init(s.buf.data(), n, t, src, tag, comms[c], &s.req); }
            else { C("MPI_Irecv"); MPI_Irecv(s.buf.data(), n, t, src, tag, comms[c], &s.req); }
        } else if (o == "start" || o == "startall") {
            vector<int> ks; int k; while (is >> k) ks.push_back(k);
            if (o == "start") for (int q : ks) { C("MPI_Start"); S[q].active = true; if (S[q].kind == 1) fprintf(lg, "S %d %ld\n", opi, S[q].msg); MPI_Start(&S[q].req); }
            else { vector<MPI_Request> rq; C("MPI_Startall"); for (int q : ks) { S[q].active = true; rq.push_back(S[q].req); if (S[q].kind == 1) fprintf(lg, "S %d %ld\n", opi, S[q].msg); } MPI_Startall(ks.size(), rq.data()); for (size_t i = 0; i < ks.size(); ++i) S[ks[i]].req = rq[i]; }
        } else if (o == "complete") {
            string mode; is >> mode; int st = I(), extra = I(); vector<int> ks; int k; while (is >> k) ks.push_back(k);
            complete(mode, st, ks, extra);
        } else if (o == "rfree") { C("MPI_Request_free"); MPI_Request_free(&S[I()].req); }
        else if (o == "cancel") { Slot& s = S[I()]; s.msg = -2; C("MPI_Cancel"); MPI_Cancel(&s.req); }
        else if (o == "sendrecv" || o == "replace") {
            int c = I(); MPI_Datatype t = types[I()]; int n = I(), d = I(), stag = I(); long m = I(); int rn = I(), src = I(), rtag = I(); long rm = I(); int st = I(); MPI_Datatype rt = types[I()];
            Slot a, b; a.buf.assign(span(t, n > rn ? n : rn) + span(rt, rn), 0); fill(a.buf, m); b.buf.assign(span(rt, rn), 0); b.kind = 2; b.msg = rm; MPI_Status x; MPI_Status* xs = st ? &x : MPI_STATUS_IGNORE;
            C(o == "sendrecv" ? "MPI_Sendrecv" : "MPI_Sendrecv_replace"); fprintf(lg, "S %d %ld\n", opi, m);
            if (src < 0) src = MPI_ANY_SOURCE; if (rtag < 0) rtag = MPI_ANY_TAG;
            if (o == "sendrecv") MPI_Sendrecv(a.buf.data(), n, t, d, stag, b.buf.data(), rn, rt, src, rtag, comms[c], xs);
            else { MPI_Sendrecv_replace(a.buf.data(), n, t, d, stag, src, rtag, comms[c], xs); b.buf = a.buf; }
            gotrecv(b);
        } else if (o == "coll") {
            string n; is >> n; int c = I(), t = I(), cnt = I(), root = I(), inpl = I(), nul = I();
            coll(n, comms[c], types[t], cnt, root, inpl, nul);
        } else { fprintf(stderr, "vmpi: bad op %s\n", l.c_str()); _exit(66); }
    }
    if (opi >= 0) fprintf(lg, "T %d %ld %ld\n", opi, tm0, now());
    ++opi; C("MPI_Finalize");
    fprintf(lg, "END\n"); fclose(lg);
    PMPI_Barrier(MPI_COMM_WORLD);
    MPI_Finalize();
    return 0;
}
