// Runtime configuration objects (C26); included by vdrv.cpp
#pragma once
#include <unistd.h>
#include <deque>
#include <map>
#include "common/StringConverter.h"
#include "common/RuntimeConfig.h"

using namespace cali;

static std::string show_conf(const StringConverter& s)
{
    std::ostringstream os; bool ok = false;
    os << enc(s.to_string());
    bool b = s.to_bool(&ok); os << " b" << ok << (ok ? (b ? ":1" : ":0") : "");
    { int v = s.to_int(&ok); os << " i" << ok; if (ok) os << ":" << v; }
    { long long v = s.to_int64(&ok); os << " l" << ok; if (ok) os << ":" << v; }
    { unsigned long long v = s.to_uint(&ok); os << " u" << ok; if (ok) os << ":" << v; }
    { double v = s.to_double(&ok); char x[64]; snprintf(x, sizeof x, "%.17g", v); os << " d" << ok; if (ok) os << ":" << x; }
    for (const char* sep : { ",", ",:" }) { os << " L"; bool first = true; for (auto& x : s.to_stringlist(sep)) { os << (first ? "" : ",") << enc(x); first = false; } }
    return os.str();
}

static std::string conf_cmd(RuntimeConfig& c, const std::vector<std::string>& t, size_t i)
{
    auto D = [&](size_t k) { return t.at(k) == "%" ? std::string() : dec(t.at(k)); };
    const std::string k = t.at(i);
    if (k == "env") c.allow_read_env(t.at(i + 1) == "1");
    else if (k == "pre") c.preset(D(i + 1).c_str(), D(i + 2));
    else if (k == "set") c.set(D(i + 1).c_str(), D(i + 2));
    else if (k == "imp") { std::map<std::string, std::string> m; for (size_t j = i + 1; j + 1 < t.size(); j += 2) m[D(j)] = D(j + 1); c.import(m); }
    else if (k == "init" || k == "inite") { // the set's values, in the order of the list
        std::deque<std::string> st; std::string r; ConfigSet cs;
        RuntimeConfig::config_entry_list_t l; std::vector<ConfigSet::Entry> e;
        for (size_t j = i + 2; j + 1 < t.size(); j += 2) {
            l.push_back({ D(j), D(j + 1) });
            st.push_back(D(j)); const char* a = st.back().c_str(); st.push_back(D(j + 1));
            e.push_back({ a, CALI_TYPE_STRING, st.back().c_str(), "", "" });
        }
        e.push_back(ConfigSet::Terminator);
        std::string n = D(i + 1);
        cs = k == "init" ? c.init(n.c_str(), l) : c.init(n.c_str(), e.data());
        for (auto& p : l) r += (r.empty() ? "" : ";") + show_conf(cs.get(p.first.c_str()));
        return r + ";" + show_conf(cs.get("no_such_key"));
    }
    else if (k == "get") return show_conf(c.get(D(i + 1).c_str(), D(i + 2).c_str()));
    else if (k == "print") { std::ostringstream os; c.print(os); return enc(os.str()); }
    return "-";
}

static Fields do_conf(const Fields& f) // <dir> <env n> k v ... commands "<obj> <cmd> args"
{
    Fields out { "ok" };
    char old[4096]; if (!getcwd(old, sizeof old) || chdir(f[1].c_str())) return { "err" };
    int n = std::stoi(f[2]); std::vector<std::string> ks;
    for (int i = 0; i < n; ++i) { ks.push_back(f[3 + 2 * i]); setenv(f[3 + 2 * i].c_str(), f[4 + 2 * i].c_str(), 1); }
    std::map<std::string, RuntimeConfig> obj;
    for (size_t i = 3 + 2 * n; i < f.size(); ++i) { auto t = split_ws(f[i]); out.push_back(conf_cmd(obj[t[0]], t, 1)); }
    for (auto& k : ks) unsetenv(k.c_str());
    if (chdir(old)) return { "err" };
    return out;
}
