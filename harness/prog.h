// Structured programs for C29: a tree of annotated scopes, each written with one of the annotation interfaces, left normally,
// by return, break, continue or an exception.
#pragma once
#include <memory>
#include <string>
#include <vector>
#include <caliper/cali.h>
#include <caliper/Caliper.h>
#include <caliper/cali_macros.h>
#include "vcommon.h"

namespace prog
{
enum Code { NORMAL, RETURN, BREAK, CONTINUE };
struct Ex {};
struct Node { std::string kind, iface, name; std::string arg; std::vector<Node> kids; };

inline Node parse(const std::vector<std::string>& t, size_t& i) // kind iface name arg ( kids )
{
    Node n; n.kind = t.at(i++); n.iface = t.at(i++); n.name = t[i] == "%" ? "" : dec(t[i]); ++i; n.arg = t.at(i++);
    ++i; // (
    while (t.at(i) != ")") n.kids.push_back(parse(t, i));
    ++i;
    return n;
}
Code run(const Node& n);
inline Code body(const Node& n)
{
    for (const Node& k : n.kids) { Code c = run(k); if (c != NORMAL) return c; }
    return NORMAL;
}
// a C-style begin/end pair around the body: ends on every exit path, as correct user code does
template <class E> Code guarded(const Node& n, E end)
{
    Code c;
    try { c = body(n); } catch (...) { end(); throw; }
    end();
    return c;
}
struct Tmp { std::unique_ptr<std::string> s; Tmp(const std::string& x) : s(new std::string(x)) {} const char* c() const { return s->c_str(); } }; // freed after use

inline Code f_one(const Node& n, int how)
{
    if (how == 0) { CALI_CXX_MARK_FUNCTION; return body(n); }
    CALI_MARK_FUNCTION_BEGIN;
    Code c;
    try { c = body(n); } catch (...) { CALI_MARK_FUNCTION_END; throw; }
    CALI_MARK_FUNCTION_END;
    return c;
}
inline Code f_two(const Node& n, int how)
{
    if (how == 0) { CALI_CXX_MARK_FUNCTION; Code c = NORMAL; for (const Node& k : n.kids) { c = run(k); if (c == RETURN) return c; if (c != NORMAL) break; } return c; }
    CALI_MARK_FUNCTION_BEGIN;
    return guarded(n, [&]() { cali_end_region("f_two"); });
}
inline Code attr_scope(const Node& n, const char* attr, const cali::Variant& v, const std::string& iface, const std::string& sval)
{
    using namespace cali;
    auto str = [&]() { return Tmp(sval); };
    if (iface == "nm") {
        switch (v.type()) {
        case CALI_TYPE_INT: cali_begin_int_byname(attr, v.to_int()); break;
        case CALI_TYPE_DOUBLE: cali_begin_double_byname(attr, v.to_double()); break;
        case CALI_TYPE_STRING: cali_begin_string_byname(attr, str().c()); break;
        default: cali_begin_byname(attr);
        }
        return guarded(n, [&]() { cali_end_byname(attr); });
    }
    if (iface == "annint" && v.type() == CALI_TYPE_DOUBLE) { // an int is accepted for an existing double attribute
        cali_create_attribute(attr, CALI_TYPE_DOUBLE, CALI_ATTR_DEFAULT);
        Annotation a(attr);
        a.begin(int(v.to_double()));
        return guarded(n, [&]() { a.end(); });
    }
    if (iface == "ann" || iface == "anncopy" || iface == "annint") {
        std::unique_ptr<Annotation> a(new Annotation(attr));
        if (iface == "anncopy") { Annotation b("unrelated"); b = *a; a.reset(new Annotation(b)); }
        switch (v.type()) {
        case CALI_TYPE_INT: a->begin(v.to_int()); break;
        case CALI_TYPE_DOUBLE: a->begin(v.to_double()); break;
        case CALI_TYPE_STRING: a->begin(str().c()); break;
        default: a->begin();
        }
        return guarded(n, [&]() { a->end(); });
    }
    if (iface == "guard") {
        Annotation a(attr);
        switch (v.type()) {
        case CALI_TYPE_INT: { Annotation::Guard g(a.begin(v.to_int())); return body(n); }
        case CALI_TYPE_DOUBLE: { Annotation::Guard g(a.begin(v.to_double())); return body(n); }
        case CALI_TYPE_STRING: { Annotation::Guard g(Annotation(attr).begin(str().c())); return body(n); }
        default: { Annotation::AutoScope g(a.begin()); return body(n); }
        }
    }
    cali_id_t id = cali_create_attribute(attr, v.type(), CALI_ATTR_DEFAULT);
    if (iface == "id") {
        switch (v.type()) {
        case CALI_TYPE_INT: cali_begin_int(id, v.to_int()); break;
        case CALI_TYPE_DOUBLE: cali_begin_double(id, v.to_double()); break;
        case CALI_TYPE_STRING: cali_begin_string(id, str().c()); break;
        default: cali_begin(id);
        }
        return guarded(n, [&]() { cali_end(id); });
    }
    Caliper c; // lo
    Attribute a = c.get_attribute(id);
    if (v.type() == CALI_TYPE_STRING) { Tmp s(sval); c.begin(a, Variant(CALI_TYPE_STRING, s.c(), sval.size())); }
    else c.begin(a, v);
    return guarded(n, [&]() { Caliper().end(a); });
}
inline Code loop(const Node& n)
{
    int count = 0, start = 0; sscanf(n.arg.c_str(), "%d,%d", &count, &start);
    const std::string& f = n.iface;
    Code c = NORMAL;
    if (f == "cxx") {
        CALI_CXX_MARK_LOOP_BEGIN(lp, Tmp(n.name).c());
        for (int i = start; i < start + count; ++i) {
            CALI_CXX_MARK_LOOP_ITERATION(lp, i);
            c = body(n);
            if (c == RETURN) return c;
            if (c == BREAK) break;
            if (c == CONTINUE) continue;
        }
        CALI_CXX_MARK_LOOP_END(lp);
        return NORMAL;
    }
    if (f == "obj" || f == "objcopy") {
        cali::Loop l(n.name.c_str());
        std::unique_ptr<cali::Loop> p;
        if (f == "objcopy") p.reset(new cali::Loop(l));
        for (int i = start; i < start + count; ++i) {
            if (p) { cali::Loop by_value(*p); cali::Loop again(by_value); } // the end of a copy ends nothing
            if (p && i > start) p.reset(new cali::Loop(l));
            cali::Loop::Iteration it((p ? *p : l).iteration(i));
            c = body(n);
            if (c == RETURN) return c;
            if (c == BREAK) break;
        }
        if (count % 2) { l.end(); l.end(); } // a second end does nothing
        return NORMAL;
    }
    if (f == "nm") {
        std::string itn = "iteration#" + n.name;
        cali_make_loop_iteration_attribute(n.name.c_str());
        cali_begin_string_byname("loop", Tmp(n.name).c());
        try {
            for (int i = start; i < start + count && c != BREAK && c != RETURN; ++i) {
                cali_begin_int_byname(itn.c_str(), i);
                c = guarded(n, [&]() { cali_end_byname(itn.c_str()); });
            }
        } catch (...) { cali_end_byname("loop"); throw; }
        cali_end_byname("loop");
        return c == RETURN ? c : NORMAL;
    }
    CALI_MARK_LOOP_BEGIN(lp, Tmp(n.name).c());
    try {
        for (int i = start; i < start + count; ++i) {
            CALI_MARK_ITERATION_BEGIN(lp, i);
            c = guarded(n, [&]() { CALI_MARK_ITERATION_END(lp); });
            if (c == BREAK || c == RETURN) break;
        }
    } catch (...) { CALI_MARK_LOOP_END(lp); throw; }
    CALI_MARK_LOOP_END(lp);
    return c == RETURN ? c : NORMAL;
}
inline Code run(const Node& n)
{
    const std::string &k = n.kind, &f = n.iface;
    if (k == "X") { if (n.name == "throw") throw Ex(); return n.name == "return" ? RETURN : n.name == "break" ? BREAK : n.name == "continue" ? CONTINUE : NORMAL; }
    if (k == "T") { try { return body(n); } catch (const Ex&) { return NORMAL; } }
    if (k == "B") return body(n);
    if (k == "S") { // set
        std::string st; cali::Variant v = parse_val(n.arg, st);
        cali_id_t id = cali_create_attribute(n.name.c_str(), v.type(), CALI_ATTR_UNALIGNED);
        if (f == "nm") { switch (v.type()) { case CALI_TYPE_INT: cali_set_int_byname(n.name.c_str(), v.to_int()); break; case CALI_TYPE_DOUBLE: cali_set_double_byname(n.name.c_str(), v.to_double()); break; default: cali_set_string_byname(n.name.c_str(), Tmp(st).c()); } }
        else if (f == "id") { switch (v.type()) { case CALI_TYPE_INT: cali_set_int(id, v.to_int()); break; case CALI_TYPE_DOUBLE: cali_set_double(id, v.to_double()); break; default: cali_set_string(id, Tmp(st).c()); } }
        else if (f == "annint" && v.type() == CALI_TYPE_DOUBLE) { cali::Annotation a(n.name.c_str(), CALI_ATTR_UNALIGNED); a.set(int(v.to_double())); }
        else if (f == "ann" || f == "annint") { cali::Annotation a(n.name.c_str(), CALI_ATTR_UNALIGNED); switch (v.type()) { case CALI_TYPE_INT: a.set(v.to_int()); break; case CALI_TYPE_DOUBLE: a.set(v.to_double()); break; default: a.set(Tmp(st).c()); } }
        else { cali::Caliper c; if (v.type() == CALI_TYPE_STRING) { Tmp s(st); c.set(c.get_attribute(id), cali::Variant(CALI_TYPE_STRING, s.c(), st.size())); } else c.set(c.get_attribute(id), v); }
        return NORMAL;
    }
    Code c = NORMAL;
    if (k == "F") { // function: its return ends here
        int how = f == "cxx" ? 0 : 1;
        if (f == "obj") { cali::Function o(n.name.c_str()); c = body(n); }
        else c = n.name == "f_one" ? f_one(n, how) : f_two(n, how);
        return NORMAL;
    }
    if (k == "L") return loop(n);
    if (k == "A") { std::string st; cali::Variant v = parse_val(n.arg, st); return attr_scope(n, n.name.c_str(), v, f, st); }
    const char* nm = n.name.c_str();
    const char* attr = k == "R" ? "region" : k == "P" ? "phase" : "comm.region";
    if (f == "mac") {
        if (k == "R") { CALI_MARK_BEGIN(Tmp(n.name).c()); return guarded(n, [&]() { CALI_MARK_END(nm); }); }
        if (k == "P") { CALI_MARK_PHASE_BEGIN(Tmp(n.name).c()); return guarded(n, [&]() { CALI_MARK_PHASE_END(nm); }); }
        CALI_MARK_COMM_REGION_BEGIN(Tmp(n.name).c()); return guarded(n, [&]() { CALI_MARK_COMM_REGION_END(nm); });
    }
    if (f == "c") {
        if (k == "R") { cali_begin_region(Tmp(n.name).c()); return guarded(n, [&]() { cali_end_region(nm); }); }
        if (k == "P") { cali_begin_phase(Tmp(n.name).c()); return guarded(n, [&]() { cali_end_phase(nm); }); }
        cali_begin_comm_region(Tmp(n.name).c()); return guarded(n, [&]() { cali_end_comm_region(nm); });
    }
    if (f == "scope" && k == "R") { CALI_CXX_MARK_SCOPE(Tmp(n.name).c()); return body(n); }
    if (f == "wrap" && k == "R") {
        bool thrown = false; // the macro has no exception handling: contain the exception in the statement
        CALI_WRAP_STATEMENT(nm, try { c = body(n); } catch (const Ex&) { thrown = true; });
        if (thrown) throw Ex();
        return c;
    }
    return attr_scope(n, attr, cali::Variant(CALI_TYPE_STRING, n.name.data(), n.name.size()), f, n.name);
}
} // namespace prog
