// C13: environments hold what was set or written in the file, per type and node, or refuse the file.
#include "vh.hpp"
#include <klepsydra/core/configuration_environment.h>
#include <klepsydra/core/prop_file_environment.h>
#include <klepsydra/mem_core/mem_env.h>
#include <cereal/types/map.hpp>
#include <cereal/types/memory.hpp>
#include <cereal/types/polymorphic.hpp>
#include <cereal/types/string.hpp>
#include <cmath>
#include <iomanip>
#include <limits>
#include <spdlog/spdlog.h>
using namespace kpsr;

namespace {
std::string scratch(const char *n) {
    const char *d = getenv("VH_SCRATCH");
    return std::string(d ? d : "/tmp") + "/" + n + "." + std::to_string(getpid());
}
struct File {
    std::string path;
    File(const char *n, const std::string &body) : path(scratch(n)) { std::ofstream(path, std::ios::binary) << body; }
    ~File() { unlink(path.c_str()); }
};
std::string genString(vh::Rng &r) {
    static const std::vector<std::string> bits = {"a", "Z", "0", " ", "\"", "\\", "/", "\n", "\t", "\xc3\xa9", "\xf0\x9f\x98\x80", "{", "}", "[", ":", ",", "0x", "'", "\x01", "=", ";", "true", "null", "-", "."};
    std::string s;
    for (int i = (int) r.below(r.chance(1, 10) ? r.chance(1, 8) ? 2000 : 60 : 8); i > 0; --i) s += r.pick(bits);
    return s;
}
std::string genKey(vh::Rng &r) {
    static const std::vector<std::string> k = {"a", "b", "key", "a/b", "b/key", "", "a key", "\"q\"", "\xc3\xa9", "x.y", "StringProperties", "value",
                                               "a_rather_long_name_of_some_property", "a_rather_long_name_of_some_other_property"};
    return r.pick(k);
}
std::string genRoot(vh::Rng &r) {
    static const std::vector<std::string> k = {"", "", "a", "b", "a/b", "a/root/that/is/longer/than/the/keys/below/it"};
    return r.pick(k);
}
float genFloat(vh::Rng &r) {
    switch (r.below(6)) {
    case 0: return (float) r.range(-1000, 1000);
    case 1: return 0.0f;
    case 2: return std::numeric_limits<float>::max() * (r.chance(1, 2) ? 1 : -1);
    case 3: return (float) (r.unit() * 2 - 1);
    default: {
        for (;;) {
            uint32_t b = (uint32_t) r.next();
            float f;
            memcpy(&f, &b, 4);
            if (std::isfinite(f) && std::fabs(f) > 1e-12f) return f;     // the JSON writer keeps 17 decimal places
        }
    }
    }
}
int genInt(vh::Rng &r) {
    switch (r.below(5)) {
    case 0: return std::numeric_limits<int>::max();
    case 1: return std::numeric_limits<int>::min();
    case 2: return (int) r.next();
    default: return (int) r.range(-10, 10);
    }
}
struct Model {
    std::map<std::string, std::string> s;
    std::map<std::string, float> f;
    std::map<std::string, int> i;
    std::map<std::string, bool> b;
    size_t size() const { return s.size() + f.size() + i.size() + b.size(); }
};
std::string full(const std::string &k, const std::string &root) { return root.empty() ? k : root + "/" + k; }

template<class M, class T, class Get> void compareOne(const M &m, const std::string &key, const std::string &root, const T &dflt, Get get, const char *what, bool rooted) {
    std::string k = rooted ? full(key, root) : key;
    T got = T();
    bool ok = get(key, got, dflt, root);
    auto it = m.find(k);
    VH_CHECK(ok == (it != m.end()), "config:presence", what << " '" << k << "' " << (it != m.end() ? "is set but not found" : "is not set but found"));
    VH_CHECK(got == (it == m.end() ? dflt : it->second), "config:value", what << " '" << k << "' is '" << got << "', expected '" << (it == m.end() ? dflt : it->second) << (it == m.end() ? "' (the default)" : "'"));
}
void compareAt(Environment &e, const Model &m, const std::string &k, const std::string &root, vh::Rng &r, bool rooted = true) {
    compareOne(m.s, k, root, genString(r), [&](const std::string &key, std::string &v, const std::string &d, const std::string &rt) { return e.getPropertyString(key, v, d, rt); }, "string", rooted);
    compareOne(m.f, k, root, genFloat(r), [&](const std::string &key, float &v, float d, const std::string &rt) { return e.getPropertyFloat(key, v, d, rt); }, "float", rooted);
    compareOne(m.i, k, root, genInt(r), [&](const std::string &key, int &v, int d, const std::string &rt) { return e.getPropertyInt(key, v, d, rt); }, "int", rooted);
    compareOne(m.b, k, root, r.chance(1, 2), [&](const std::string &key, bool &v, bool d, const std::string &rt) { return e.getPropertyBool(key, v, d, rt); }, "bool", rooted);
}
void compareAll(Environment &e, const Model &m, vh::Rng &r) {
    std::set<std::string> keys;
    for (auto &x : m.s) keys.insert(x.first);
    for (auto &x : m.f) keys.insert(x.first);
    for (auto &x : m.i) keys.insert(x.first);
    for (auto &x : m.b) keys.insert(x.first);
    keys.insert(genKey(r));
    for (auto &k : keys) compareAt(e, m, k, "", r);
}

std::string quoted(const std::string &s, vh::Rng &r) {
    std::ostringstream o;
    o << '"';
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') o << '\\' << ch;
        else if (ch == '\n') o << (r.chance(1, 2) ? "\\n" : "\\u000a");
        else if (ch == '\t') o << "\\t";
        else if (ch < 32) o << "\\u" << std::hex << std::setw(4) << std::setfill('0') << (int) ch << std::dec;
        else if (ch == '/' && r.chance(1, 3)) o << "\\/";
        else if (ch < 127 && isalpha(ch) && r.chance(1, 20)) o << "\\u" << std::hex << std::setw(4) << std::setfill('0') << (int) ch << std::dec;
        else o << ch;
    }
    o << '"';
    return o.str();
}
std::string ws(vh::Rng &r) {
    static const std::vector<std::string> w = {"", "", "", " ", "\n", "\t", "\r\n  "};
    return r.pick(w);
}
enum Damage { NONE, TRUNCATED, WRONG_TYPE, NOT_AN_OBJECT, GARBAGE, EMPTY, TRAILING };
struct Doc {
    std::string text;
    Model m;
    bool has[4] = {false, false, false, false};
};
template<class M, class W> std::string section(const M &m, W w, vh::Rng &r, bool bad, const std::string &badValue) {
    std::string t = "{" + ws(r);
    bool first = true;
    size_t at = m.empty() ? 0 : r.below(m.size()), n = 0;
    for (auto &x : m) {
        if (!first) t += "," + ws(r);
        first = false;
        t += quoted(x.first, r) + ws(r) + ":" + ws(r) + (bad && n == at ? badValue : w(x.second)) + ws(r);
        ++n;
    }
    if (bad && m.empty()) t += "\"bad\":" + badValue;
    return t + "}";
}
Doc genDoc(vh::Rng &r, Damage d) {
    Doc doc;
    int n = (int) r.range(0, 8);
    for (int i = 0; i < n; ++i) switch (r.below(4)) {
        case 0: doc.m.s[genKey(r)] = genString(r); break;
        case 1: doc.m.f[genKey(r)] = r.chance(1, 2) ? (float) r.range(-50, 50) : genFloat(r); break;
        case 2: doc.m.i[genKey(r)] = genInt(r); break;
        default: doc.m.b[genKey(r)] = r.chance(1, 2);
    }
    int present = (int) r.below(16) | (r.chance(1, 2) ? 15 : 0);
    int badSection = (int) r.below(4);
    if (d == WRONG_TYPE || d == NOT_AN_OBJECT) present |= 1 << badSection;
    std::vector<std::string> parts;
    for (int k = 0; k < 4; ++k) {
        if (!(present >> k & 1)) continue;
        doc.has[k] = true;
        bool bad = d == WRONG_TYPE && k == badSection;
        std::string body;
        static const char *names[] = {"StringProperties", "FloatProperties", "IntProperties", "BoolProperties"};
        static const std::vector<std::string> wrong[] = {{"5", "true", "null", "{}", "1.5"}, {"\"x\"", "true", "null", "{}"}, {"\"x\"", "1.5", "99999999999", "true", "null", "{}"}, {"\"x\"", "1", "null", "{}"}};
        std::string w = wrong[k][r.below(wrong[k].size())];
        switch (k) {
        case 0: body = section(doc.m.s, [&](const std::string &s) { return quoted(s, r); }, r, bad, w); break;
        case 1: body = section(doc.m.f, [&](float f) { std::ostringstream o; if (std::fabs(f) < 1000 && f == (int) f && r.chance(1, 2)) o << (int) f; else o << std::setprecision(9) << std::scientific << f; return o.str(); }, r, bad, w); break;
        case 2: body = section(doc.m.i, [&](int i) { return std::to_string(i); }, r, bad, w); break;
        default: body = section(doc.m.b, [&](bool b) { return std::string(b ? "true" : "false"); }, r, bad, w);
        }
        if (d == NOT_AN_OBJECT && k == badSection) { static const std::vector<std::string> no = {"5", "\"text\"", "true", "null"}; body = r.pick(no); }
        parts.push_back(quoted(names[k], r) + ws(r) + ":" + ws(r) + body);
    }
    if (!doc.has[0]) doc.m.s.clear();
    if (!doc.has[1]) doc.m.f.clear();
    if (!doc.has[2]) doc.m.i.clear();
    if (!doc.has[3]) doc.m.b.clear();
    if (r.chance(1, 4)) parts.push_back("\"Other\":{\"a\":[1,2,{\"b\":null}]}");
    for (size_t i = parts.size(); i > 1; --i) if (r.chance(1, 2)) std::swap(parts[i - 1], parts[r.below(i)]);
    doc.text = ws(r) + "{" + ws(r);
    for (size_t i = 0; i < parts.size(); ++i) doc.text += (i ? "," + ws(r) : "") + parts[i] + ws(r);
    doc.text += "}";
    if (d == TRUNCATED) doc.text = doc.text.substr(0, r.below(doc.text.size()));
    if (d == GARBAGE) doc.text = genString(r) + "?" + doc.text;
    if (d == TRAILING) doc.text += "}" + genString(r);
    if (d == EMPTY) doc.text.clear();
    return doc;
}
Damage genDamage(vh::Rng &r) { return r.chance(1, 2) ? NONE : (Damage) r.range(1, 6); }
template<class M> bool mergeInto(M &to, const M &from, const std::string &root) {
    bool all = true;
    for (auto &x : from) all = to.insert(std::make_pair(full(x.first, root), x.second)).second && all;
    return all;
}
} // namespace

VH_SCENARIO(env_model) {
    vh::Rng &r = c.rng;
    spdlog::set_level(spdlog::level::off);
    ConfigurationEnvironment env;
    Model m;
    int n = (int) r.range(4, c.thorough ? 60 : 30);
    long sets = 0, loads = 0, refused = 0, partly = 0, trips = 0;
    std::unique_ptr<ConfigurationEnvironment> fromFile;
    for (int i = 0; i < n; ++i) {
        int op = (int) r.below(12);
        c.mark(op);
        std::string k = genKey(r), root = genRoot(r), fk = full(k, root);
        if (op < 5) {
            ++sets;
            switch (r.below(4)) {
            case 0: { auto v = genString(r); env.setPropertyString(k, v, root); m.s[fk] = v; break; }
            case 1: { auto v = genFloat(r); env.setPropertyFloat(k, v, root); m.f[fk] = v; break; }
            case 2: { auto v = genInt(r); env.setPropertyInt(k, v, root); m.i[fk] = v; break; }
            default: { bool v = r.chance(1, 2); env.setPropertyBool(k, v, root); m.b[fk] = v; }
            }
        } else if (op < 7) {                       // a file is added below a node; what is there already stays
            Damage d = genDamage(r);
            Doc doc = genDoc(r, d);
            File f("conf", doc.text);
            bool ok = env.loadFile(f.path, root);
            if (d == NONE) {
                bool a = mergeInto(m.s, doc.m.s, root), b = mergeInto(m.f, doc.m.f, root), x = mergeInto(m.i, doc.m.i, root), y = mergeInto(m.b, doc.m.b, root);
                VH_CHECK(ok == (a && b && x && y), "config:load-result", "loading " << doc.text << " reported " << ok);
                ++loads;
                if (!ok) ++partly;
            } else {
                VH_CHECK(!ok, "config:damaged-accepted", "damaged file (" << d << ") accepted: " << doc.text);
                ++refused;
            }
        } else if (op < 9) {                       // an update replaces the sections it contains
            Damage d = genDamage(r);
            Doc doc = genDoc(r, d);
            bool ok = env.updateConfiguration(doc.text);
            if (d == NONE) {
                VH_CHECK(ok, "config:update-result", "update refused: " << doc.text);
                if (doc.has[0]) m.s = doc.m.s;
                if (doc.has[1]) m.f = doc.m.f;
                if (doc.has[2]) m.i = doc.m.i;
                if (doc.has[3]) m.b = doc.m.b;
                ++loads;
            } else {
                VH_CHECK(!ok, "config:damaged-accepted", "damaged update (" << d << ") accepted: " << doc.text);
                ++refused;
            }
        } else if (op == 9) {                      // export and import again
            std::string t = env.exportEnvironment();
            ConfigurationEnvironment again;
            if (r.chance(1, 2)) again.setPropertyInt("left over", 1);
            VH_CHECK(again.updateConfiguration(t), "config:export", "exported environment refused: " << t);
            compareAll(again, m, r);
            File f("export", t);
            ConfigurationEnvironment file(f.path);
            compareAll(file, m, r);
            VH_CHECK(again.exportEnvironment() == t, "config:export-differs", "the same environment exported differently: " << t);
            ++trips;
        } else if (op == 10) {                     // constructed from a file
            Damage d = genDamage(r);
            Doc doc = genDoc(r, d);
            File f("ctor", doc.text);
            bool threw = false;
            try {
                ConfigurationEnvironment e(f.path, root);
                Model w;
                mergeInto(w.s, doc.m.s, root), mergeInto(w.f, doc.m.f, root), mergeInto(w.i, doc.m.i, root), mergeInto(w.b, doc.m.b, root);
                if (d == NONE) compareAll(e, w, r);
            } catch (const std::exception &) { threw = true; }
            VH_CHECK(threw == (d != NONE), "config:constructor", (d ? "damaged" : "good") << " file " << (threw ? "refused: " : "accepted: ") << doc.text);
            d ? ++refused : ++loads;
        } else {
            VH_CHECK(!env.loadFile(scratch("does-not-exist"), root), "config:missing-file", "a file that does not exist was loaded");
            bool threw = false;
            try { ConfigurationEnvironment e(scratch("does-not-exist")); } catch (const std::exception &) { threw = true; }
            VH_CHECK(threw, "config:missing-file", "an environment was made from a file that does not exist");
        }
        compareAt(env, m, genKey(r), genRoot(r), r);
        if (i % 4 == 3 || i == n - 1) compareAll(env, m, r);
    }
    c.desc << sets << " sets, " << loads << " loads, " << refused << " refused, " << trips << " round trips, " << m.size() << " properties";
    c.nontrivial = loads + trips > 0 && m.size() > 1;
    vh::count("properties_set", sets);
    vh::count("documents_loaded", loads);
    vh::count("documents_refused", refused);
    vh::count("documents_partly_present", partly);
    vh::count("export_round_trips", trips);
}

VH_SCENARIO(prop_file) {
    vh::Rng &r = c.rng;
    spdlog::set_level(spdlog::level::off);
    struct Line { std::string key, value; int kind; int i = 0; float f = 0; bool b = false; };
    std::vector<Line> lines;
    std::ostringstream o;
    std::set<std::string> used;
    int n = (int) r.range(0, 15), bad = r.chance(1, 3) ? (int) r.below(n + 1) : -1;
    static const char *eol[] = {"\n", "\r\n"};
    const char *nl = eol[r.chance(1, 5)];
    auto sp = [&] { static const std::vector<std::string> w = {"", "", " ", "\t", "  "}; return r.pick(w); };
    int badKind = (int) r.below(4);
    long spaced = 0, hex = 0, blank = 0;
    for (int i = 0; i <= n; ++i) {
        if (i == bad) {
            switch (badKind) {
            case 0: o << sp() << "no separator here" << nl; break;
            case 1: o << sp() << "=" << "value" << nl; break;
            case 2: o << "empty" << i << sp() << "=" << sp() << sp() << (r.chance(1, 4) ? "; no value" : "") << nl; break;
            default:
                if (lines.empty()) o << "nothing" << nl;
                else o << r.pick(lines).key << "=again" << nl;
            }
        }
        if (i == n) break;
        if (r.chance(1, 6)) { o << sp() << (r.chance(1, 2) ? "; a comment = here" : ";") << nl; }
        if (r.chance(1, 8)) { o << sp() << sp() << nl; ++blank; }
        Line l;
        static const char *ks[] = {"a", "key", "str.property", "UPPER_case", "k-1", "x:y", "q\"", "\xc3\xa9", "a.key.that.is.rather.longer.than.most.of.them"};
        l.key = std::string(ks[r.below(9)]) + (r.chance(2, 3) ? std::to_string(i) : "");
        if (!used.insert(l.key).second) continue;
        l.kind = (int) r.below(6);
        switch (l.kind) {
        case 0: {                                  // text: inner blanks, separators and digits belong to it
            static const std::vector<std::string> bits = {"a", "B", "7", " ", "\t", "=", "/", "0x", "\"", "\xc3\xa9", ",", "-", "  "};
            for (int k = (int) r.range(1, 12); k > 0; --k) l.value += r.pick(bits);
            l.value = "v" + l.value + "w";
            if (l.value.find(' ') != std::string::npos) ++spaced;
            break;
        }
        case 1: l.i = genInt(r); l.value = std::to_string(l.i); if (l.i >= 0 && r.chance(1, 4)) l.value = "+" + l.value; break;
        case 2: { l.i = (int) (r.next() >> 33) >> r.below(31); std::ostringstream h; h << "0x" << std::hex << (r.chance(1, 2) ? std::uppercase : std::nouppercase) << l.i; l.value = h.str(); ++hex; break; }
        case 3: { l.f = genFloat(r); std::ostringstream h; h << std::setprecision(9) << l.f; l.value = h.str(); break; }
        case 4: l.b = r.chance(1, 2); l.value = l.b ? "1" : "0"; break;
        default: { static const std::vector<std::string> bads = {"x", "0xzz", "--1", "99999999999", "0x1ffffffff", "", ".", "e5"}; l.value = r.pick(bads); if (l.value.empty()) l.value = "?"; }
        }
        o << sp() << l.key << sp() << "=" << sp() << l.value << sp() << (r.chance(1, 6) ? "; comment = x" : "") << (i == n - 1 && bad < 0 && r.chance(1, 2) ? "" : nl);
        lines.push_back(l);
    }
    std::string text = o.str();
    std::unique_ptr<PropertyFileEnvironment> env;
    bool threw = false;
    bool viaFile = r.chance(1, 2);
    try {
        if (viaFile) { File f("props", text); env.reset(new PropertyFileEnvironment(f.path)); }
        else { std::stringstream s(text); env.reset(new PropertyFileEnvironment(s)); }
    } catch (const std::exception &) { threw = true; }
    VH_CHECK(threw == (bad >= 0), "propfile:accept", (bad >= 0 ? "malformed" : "good") << " property file " << (threw ? "refused" : "accepted") << ":\n" << text);
    long refusedValues = 0;
    if (!threw) {
        for (auto &l : lines) {
            std::string s;
            env->getPropertyString(l.key, s, "dflt");
            VH_CHECK(s == l.value, "propfile:string", "property " << l.key << " is '" << s << "', the file says '" << l.value << "'\n" << text);
            int i = 4711; float f = 0.5f; bool b = false;
            if (l.kind == 1 || l.kind == 2) { env->getPropertyInt(l.key, i, 99); VH_CHECK(i == l.i, "propfile:int", "property " << l.key << " is " << i << ", the file says " << l.value); }
            if (l.kind == 3) { env->getPropertyFloat(l.key, f, 99); VH_CHECK(f == l.f, "propfile:float", "property " << l.key << " is " << f << ", the file says " << l.value); }
            if (l.kind == 4) { env->getPropertyBool(l.key, b, !l.b); VH_CHECK(b == l.b, "propfile:bool", "property " << l.key << " is " << b << ", the file says " << l.value); }
            if (l.kind == 5) {
                bool t = false;
                try { env->getPropertyInt(l.key, i, 99); } catch (const std::exception &) { t = true; }
                VH_CHECK(t, "propfile:not-a-number", "property " << l.key << " = '" << l.value << "' was read as number " << i);
                ++refusedValues;
            }
        }
        std::string s; int i; float f; bool b;
        env->getPropertyString("missing", s, "d e f"); env->getPropertyInt("missing", i, -5); env->getPropertyFloat("missing", f, 1.5f); env->getPropertyBool("missing", b, true);
        VH_CHECK(s == "d e f" && i == -5 && f == 1.5f && b, "propfile:default", "a property that is missing is not the default");
    }
    threw = false;
    if (r.chance(1, 10)) { try { PropertyFileEnvironment e(scratch("no-props")); } catch (const std::exception &) { threw = true; } VH_CHECK(threw, "propfile:missing", "property file that does not exist accepted"); }
    c.desc << lines.size() << " properties" << (bad >= 0 ? ", malformed line" : "") << (*nl == '\r' ? ", CRLF" : "");
    c.mark(vh::hashStr(text));
    c.nontrivial = lines.size() > 1;
    vh::count("property_lines", (long) lines.size());
    vh::count("values_with_blanks", spaced);
    vh::count("hexadecimal_values", hex);
    vh::count("blank_lines", blank);
    vh::count("malformed_property_files", bad >= 0);
    vh::count("malformed_numbers", refusedValues);
}

VH_SCENARIO(mem_env) {
    vh::Rng &r = c.rng;
    spdlog::set_level(spdlog::level::off);
    mem::MemEnv env;
    int n = (int) r.range(5, 60);
    {
        Model m;
        for (int i = 0; i < n; ++i) {
            std::string k = genKey(r);
            switch (r.below(4)) {
            case 0: { auto v = genString(r); env.setPropertyString(k, v); m.s[k] = v; break; }
            case 1: { auto v = genFloat(r); env.setPropertyFloat(k, v); m.f[k] = v; break; }
            case 2: { auto v = genInt(r); env.setPropertyInt(k, v); m.i[k] = v; break; }
            default: { bool v = r.chance(1, 2); env.setPropertyBool(k, v); m.b[k] = v; }
            }
            compareAt(env, m, genKey(r), "", r, false);
        }
    }
    // Several threads: every thread owns one key of each type and everybody reads everything.
    int nt = (int) r.range(2, 4), rounds = (int) r.range(10, 100);
    std::vector<uint64_t> seeds;
    for (int t = 0; t < nt; ++t) seeds.push_back(r.next());
    vh::WithNoise noise(c);
    vh::SpinStart go;
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t) ts.emplace_back([&, t] {
        vh::Rng q(seeds[t]);
        std::string me = "thread" + std::to_string(t);
        go.arrive();
        std::vector<int> last(nt, -1);
        for (int i = 0; i < rounds; ++i) {
            env.setPropertyInt(me, i);
            env.setPropertyString(me, std::string(1 + i % 40, 'a' + t));
            env.setPropertyFloat(me, i * 0.5f);
            env.setPropertyBool(me, i % 2);
            int o = (int) q.below(nt), v;
            std::string s, other = "thread" + std::to_string(o);
            float f; bool b;
            env.getPropertyInt(other, v, -1);
            VH_CHECK(v >= last[o] && (o != t || v == i), "memenv:order", "property of thread " << o << " went from " << last[o] << " to " << v);
            last[o] = v;
            env.getPropertyString(other, s, "");
            VH_CHECK(s == std::string(s.size(), 'a' + o), "memenv:torn", "string property is torn: " << s);
            env.getPropertyFloat(other, f, -1);
            env.getPropertyBool(other, b);
            vh::progress();
        }
    });
    go.release(nt);
    for (auto &t : ts) t.join();
    c.desc << n << " sets, then " << nt << " threads, " << rounds << " rounds";
    c.mark(n), c.mark(nt), c.mark(rounds);
    c.nontrivial = true;
    vh::count("environment_shared_rounds", (long) nt * rounds);
}

VH_SCENARIO(dynamic_model) {
    vh::Rng &r = c.rng;
    spdlog::set_level(spdlog::level::off);
    struct V { int type; std::string s; float f; int i; bool b; };
    DynamicConfigurationProperties p, other;
    std::map<std::string, V> m, mo;
    int n = (int) r.range(4, 40);
    long over = 0, clash = 0, trips = 0;
    auto check = [&](DynamicConfigurationProperties &q, std::map<std::string, V> &w, const std::string &k) {
        auto it = w.find(k);
        std::string s = "none"; float f = -1; int i = -1; bool b = false, b2 = true;
        bool gs = q.getProperty(k, s), gf = q.getProperty(k, f), gi = q.getProperty(k, i), gb = q.getProperty(k, b);
        q.getProperty(k, b2);
        int type = it == w.end() ? -1 : it->second.type;
        VH_CHECK(gs == (type == 0) && gf == (type == 1) && gi == (type == 2) && gb == (type == 3), "dynamic:type", "property '" << k << "' of type " << type << " found as " << gs << gf << gi << gb);
        if (type == 0) VH_CHECK(s == it->second.s, "dynamic:value", "property '" << k << "' is '" << s << "' expected '" << it->second.s << "'"); else VH_CHECK(s == "none", "dynamic:touched", "value changed");
        if (type == 1) VH_CHECK(f == it->second.f, "dynamic:value", "property '" << k << "' is " << f << " expected " << it->second.f); else VH_CHECK(f == -1, "dynamic:touched", "value changed");
        if (type == 2) VH_CHECK(i == it->second.i, "dynamic:value", "property '" << k << "' is " << i << " expected " << it->second.i); else VH_CHECK(i == -1, "dynamic:touched", "value changed");
        if (type == 3) VH_CHECK(b == it->second.b && b2 == b, "dynamic:value", "property '" << k << "' is " << b << " expected " << it->second.b);
    };
    for (int i = 0; i < n; ++i) {
        int op = (int) r.below(8);
        c.mark(op);
        bool first = r.chance(2, 3);
        auto &q = first ? p : other;
        auto &w = first ? m : mo;
        std::string k = genKey(r);
        if (op < 6) {
            V v{(int) r.below(4), genString(r), genFloat(r), genInt(r), r.chance(1, 2)};
            auto it = w.find(k);
            bool can = it == w.end() || it->second.type == v.type;
            if (it != w.end()) can ? ++over : ++clash;
            bool ok = v.type == 0 ? q.setProperty(k, v.s) : v.type == 1 ? q.setProperty(k, v.f) : v.type == 2 ? q.setProperty(k, v.i) : q.setProperty(k, v.b);
            VH_CHECK(ok == can, "dynamic:set", "setting '" << k << "'" << (it != w.end() ? " again" : "") << (can ? " with its type failed" : " with another type succeeded"));
            if (can) w[k] = v;
        } else if (op == 6) {
            std::string prefix = genRoot(r);
            p.copyFrom(other, prefix);
            for (auto &x : mo) m.insert(std::make_pair(full(x.first, prefix), x.second));
        } else {
            std::stringstream ss;
            { cereal::JSONOutputArchive a(ss); p.serialize(a); }
            DynamicConfigurationProperties again;
            { cereal::JSONInputArchive a(ss); again.serialize(a); }
            for (auto &x : m) check(again, m, x.first);
            ++trips;
        }
        for (auto &x : m) check(p, m, x.first);
        for (auto &x : mo) check(other, mo, x.first);
        check(p, m, genKey(r));
    }
    c.desc << n << " operations, " << m.size() << " properties";
    c.nontrivial = over > 0;
    vh::count("properties_overwritten", over);
    vh::count("type_clashes", clash);
    vh::count("dynamic_round_trips", trips);
}
