// C24: the state machine does what its configuration says.  C25: listeners run their actions when they should.
// C26: configuration files are loaded as written or refused.
#include "vh.hpp"
#include <fstream>
#include <klepsydra/state_machine/json_config_loader.h>
#include <klepsydra/state_machine/kpsr_state_machine.h>
#include <klepsydra/state_machine/sm_factory_impl.h>
#include <klepsydra/state_machine/state_machine_listener.h>
#include <deque>
#include <spdlog/spdlog.h>

using namespace kpsr::fsm;

namespace {
const char *kEvents[] = {"go", "stop", "e1", "e2", "", "go "};
std::string ev(vh::Rng &r) { return kEvents[r.below(6)]; }
int nameStyle = 0;
std::string stateName(long i) { return vh::nameOf(nameStyle, "st", i); }
ConfigStateMachine config(vh::Rng &r, bool exotic) {
    nameStyle = (int) r.below(4);
    ConfigStateMachine cfg;
    cfg.id = exotic && r.chance(1, 6) ? "" : "sm" + std::to_string(r.below(100));
    int n = (int) r.range(1, 6);
    for (int i = 0; i < n; ++i) {
        ConfigState s;
        s.id = stateName(i);
        for (size_t k = r.below(6); k; --k) {
            ConfigTransition t;
            t.event = ev(r);
            t.destinationId = exotic && r.chance(1, 15) ? "nowhere" : stateName(r.below(n));
            s.transitions.push_back(t);
        }
        cfg.states.push_back(s);
    }
    return cfg;
}
std::string show(const ConfigStateMachine &c) {
    std::ostringstream o;
    o << c.id << ": ";
    for (auto &s : c.states) {
        o << s.id << "(";
        for (auto &t : s.transitions) o << "'" << t.event << "'>" << t.destinationId << " ";
        o << ") ";
    }
    return o.str();
}
struct Model {
    const ConfigStateMachine &cfg;
    bool started = false;
    std::string cur;
    std::deque<std::string> q;
    explicit Model(const ConfigStateMachine &c) : cfg(c), cur(c.states[0].id) {}
    const ConfigState *state() const {
        for (auto &s : cfg.states) if (s.id == cur) return &s;
        return nullptr;
    }
    void enqueue(const std::string &e) { if (started) q.push_back(e); }
    // returns false if nobody is to be told
    bool update(bool &changed) {
        changed = false;
        if (!started || !state()) return false;
        while (!q.empty() && !changed) {
            std::string e = q.front();
            q.pop_front();
            for (auto &t : state()->transitions)
                if (t.event == e) { cur = t.destinationId; changed = true; break; }
        }
        return true;
    }
    void reset() { started = false; cur = cfg.states[0].id; q.clear(); }
    std::string name() const { return cfg.id + ":" + cur; }
};
struct Seen {
    std::string state;
    bool changed;
    bool operator==(const Seen &o) const { return state == o.state && changed == o.changed; }
};
std::string show(const std::vector<Seen> &v) {
    std::ostringstream o;
    for (auto &s : v) o << s.state << (s.changed ? "! " : " ");
    return o.str();
}
} // namespace

VH_SCENARIO(sm_model)
{
    auto &r = c.rng;
    ConfigStateMachine cfg = config(r, true);
    SMFactoryImpl factory;
    std::shared_ptr<StateMachine> sm = factory.createStateMachine(cfg);
    Model m(cfg);
    struct Obs { std::vector<Seen> got, want; bool attached = true; };
    std::vector<std::shared_ptr<Obs>> all, attached;
    int inCallback = 0; // 1: enqueue, 2: register, 3: unregister (one observer only)
    std::string pending;
    std::function<void()> add = [&] {
        auto o = std::make_shared<Obs>();
        all.push_back(o);
        attached.push_back(o);
        sm->registerObserver([&, o](const std::string &s, bool ch) {
            o->got.push_back({s, ch});
            int what = inCallback;
            inCallback = 0;
            if (what == 1) { sm->enqueueEvent(pending); m.enqueue(pending); }
            if (what == 2) add();
            if (what == 3) { sm->unregisterObservers(); attached.clear(); }
        });
    };
    auto tell = [&](bool changed, const std::vector<std::shared_ptr<Obs>> &who, const std::string &name) { for (auto &o : who) o->want.push_back({name, changed}); };
    int n = (int) r.range(10, 80);
    long transitions = 0, ignored = 0, resets = 0;
    std::ostringstream script;
    for (int i = 0; i < n; ++i) {
        int k = (int) r.below(20);
        if (r.chance(1, 10)) inCallback = (int) r.range(1, 2);
        else if (r.chance(1, 25) && attached.size() == 1) inCallback = 3;
        else inCallback = 0;
        pending = ev(r);
        auto who = attached; // those registered when the step begins
        bool changed;
        if (k < 2) { script << "start "; m.started = true; std::string nm = m.name(); sm->start(); tell(true, who, nm); }
        else if (k < 3) { script << "stop "; m.started = false; sm->stop(); }
        else if (k < 4) { script << "reset "; m.reset(); sm->reset(); ++resets; }
        else if (k < 9) { std::string e = ev(r); script << "enq(" << e << ") "; m.enqueue(e); sm->enqueueEvent(e); }
        else if (k < 13) {
            script << "upd ";
            // callbacks run inside update and may enqueue: take the model's step first
            bool t = m.update(changed);
            std::string nm = m.name();
            sm->update();
            if (t) tell(changed, who, nm);
            transitions += changed; ignored += t && !changed;
        } else if (k < 17) {
            std::string e = ev(r);
            script << "enqupd(" << e << ") ";
            m.enqueue(e);
            bool t = m.update(changed);
            std::string nm = m.name();
            sm->enqueueAndUpdate(e);
            if (t) tell(changed, who, nm);
            transitions += changed; ignored += t && !changed;
        } else if (k < 19) { if (attached.size() < 4) { script << "obs "; add(); } }
        else { script << "noobs "; attached.clear(); sm->unregisterObservers(); }
        for (size_t q = 0; q < all.size(); ++q) {
            // an observer added during a notification may or may not be told of that one
            auto &o = *all[q];
            bool isNew = std::find(who.begin(), who.end(), all[q]) == who.end();
            if (isNew && o.got.size() == o.want.size() + 1) o.want.push_back(o.got.back());
            VH_CHECK(o.got == o.want, "sm:notifications", "after " << script.str() << "observer " << q << " was told [" << show(o.got) << "], expected [" << show(o.want) << "]; " << show(cfg));
        }
    }
    c.desc << show(cfg) << " | " << script.str();
    c.mark(vh::hashStr(c.desc.str()));
    c.nontrivial = transitions > 0;
    vh::count("transitions", transitions);
    vh::count("updates_without_transition", ignored);
    vh::count("resets", resets);
}

// Actions under every kind of reaction: adding, removing, raising events, updating from inside an action.
VH_SCENARIO(sm_listener)
{
    auto &r = c.rng;
    ConfigStateMachine cfg = config(r, false);
    SMFactoryImpl factory;
    auto sm = factory.createStateMachine(cfg);
    bool anon = r.chance(1, 4);
    StateMachineListener listener(anon ? "" : cfg.id);
    enum Kind { oneOff, onEnter, periodic };
    struct Act { int id; Kind kind; std::string state; bool live = true; int addedIn; int removedIn = -1; int runs = 0; int claimed = -1; };
    std::vector<std::shared_ptr<Act>> acts;
    struct Round { int id; std::string state; bool changed; std::vector<int> ran; std::vector<std::shared_ptr<Act>> due; };
    std::vector<Round> stack;
    int rounds = 0, depth = 0;
    long ran = 0, addedInside = 0, removedInside = 0, nested = 0;
    bool insideLimit = false;
    std::ostringstream script;
    Model m(cfg);
    // listeners with an empty id use complete names
    auto key = [&](const std::string &full) { return anon ? full : full.substr(cfg.id.size() + 1); };
    std::function<void(Kind, const std::string &)> add;
    std::function<void()> react = [&] {
        if (insideLimit) return;
        int k = (int) r.below(14);
        std::string cur = key(stack.back().state);
        if (k == 0) { add((Kind) r.below(3), cur); ++addedInside; }
        else if (k == 1) { add((Kind) r.below(3), key(cfg.id + ":" + stateName(r.below(cfg.states.size())))); ++addedInside; }
        else if (k == 2) {
            for (auto &a : acts) if (a->live && a->state == cur) { a->live = false; a->removedIn = stack.back().id; }
            listener.removeActions(cur);
            ++removedInside;
        } else if (k == 3) sm->enqueueEvent(ev(r));
        else if (k == 4 && depth < 3) { ++depth; ++nested; sm->enqueueAndUpdate(ev(r)); --depth; }
    };
    add = [&](Kind kind, const std::string &state) {
        auto a = std::make_shared<Act>();
        a->id = (int) acts.size();
        a->kind = kind;
        a->state = state;
        a->addedIn = stack.empty() ? -1 : stack.back().id;
        acts.push_back(a);
        auto f = [&, a](const std::string &s) {
            VH_CHECK(!stack.empty(), "sm:action-outside-notification", "an action ran outside a notification");
            VH_CHECK(s == stack.back().state && key(s) == a->state, "sm:action-state", "action " << a->id << " for " << a->state << " ran with '" << s << "' while the machine entered " << stack.back().state);
            ++a->runs;
            ++ran;
            if (a->kind == oneOff) { VH_CHECK(a->runs == 1, "sm:one-off-twice", "a one-off action ran " << a->runs << " times"); a->live = false; }
            stack.back().ran.push_back(a->id);
            react();
        };
        if (kind == oneOff) listener.addOneOffAction(state, f);
        else if (kind == onEnter) listener.addAction(state, f);
        else listener.addPeriodicAction(state, f);
    };
    sm->registerObserver([&](const std::string &s, bool ch) {
        Round rd;
        rd.id = rounds++;
        rd.state = s;
        rd.changed = ch;
        for (int kind = 0; kind < 3; ++kind)
            for (auto &a : acts)
                if (a->live && a->kind == kind && a->state == key(s) && (ch || kind == periodic)) {
                    rd.due.push_back(a);
                    if (kind == oneOff && a->claimed < 0) a->claimed = rd.id;
                }
        stack.push_back(rd);
    });
    sm->registerObserver(listener.getObserverFunc());
    sm->registerObserver([&](const std::string &s, bool ch) {
        VH_CHECK(!stack.empty() && stack.back().state == s && stack.back().changed == ch, "sm:observers-disagree",
                 "one observer was told " << (stack.empty() ? "nothing" : stack.back().state) << ", a later one " << s << "; " << script.str());
        Round rd = stack.back();
        stack.pop_back();
        // everything due ran, in order; what was removed meanwhile (or consumed by a nested round) may be missing, what was added meanwhile may be extra
        size_t i = 0;
        for (auto &a : rd.due) {
            while (i < rd.ran.size() && rd.ran[i] != a->id && acts[rd.ran[i]]->addedIn >= rd.id) ++i;
            if (i < rd.ran.size() && rd.ran[i] == a->id) { ++i; continue; }
            // a one-off an enclosing round is about to run may be left to it
            bool excused = (a->removedIn >= rd.id) || (a->kind == oneOff && a->claimed >= 0 && a->claimed < rd.id) || (a->kind == oneOff && a->runs == 1);
            std::ostringstream o;
            for (int x : rd.ran) o << x << " ";
            VH_CHECK(excused, "sm:action-missed", "action " << a->id << " (kind " << a->kind << ") for " << a->state << " did not run in its turn when " << s << (ch ? " was entered" : " was updated") << "; ran: " << o.str()
                     << "; " << script.str());
        }
        while (i < rd.ran.size() && acts[rd.ran[i]]->addedIn >= rd.id) ++i;
        VH_CHECK(i == rd.ran.size(), "sm:action-not-due", "action " << rd.ran[i] << " (kind " << acts[rd.ran[i]]->kind << ") ran although it was not due for " << s << "; " << script.str());
    });
    int n = (int) r.range(10, 60);
    for (int i = 0; i < n; ++i) {
        int k = (int) r.below(16);
        insideLimit = acts.size() > 60;
        if (k < 4) { Kind kd = (Kind) r.below(3); std::string s = key(cfg.id + ":" + stateName(r.below(cfg.states.size()))); script << "add" << kd << "(" << s << ") "; if (acts.size() < 60) add(kd, s); }
        else if (k == 4) {
            bool one = r.chance(2, 3);
            std::string s = key(cfg.id + ":" + stateName(r.below(cfg.states.size())));
            script << "remove(" << (one ? s : "*") << ") ";
            for (auto &a : acts) if (!one || a->state == s) a->live = false;
            if (one) listener.removeActions(s); else listener.removeActions();
        } else if (k < 7) { script << "start "; sm->start(); }
        else if (k < 8) { script << "reset "; sm->reset(); }
        else if (k < 10) { script << "upd "; sm->update(); }
        else { std::string e = ev(r); script << "ev(" << e << ") "; sm->enqueueAndUpdate(e); }
        VH_CHECK(stack.empty(), "sm:observer-skipped", "an observer was not told of a notification that another one got; " << script.str());
    }
    c.desc << show(cfg) << " | " << script.str();
    c.mark(vh::hashStr(c.desc.str()));
    c.nontrivial = ran > 0;
    vh::count("actions_run", ran);
    vh::count("actions_added_inside", addedInside);
    vh::count("actions_removed_inside", removedInside);
    vh::count("nested_updates", nested);
    vh::count("notification_rounds", rounds);
}

namespace {
std::string js(vh::Rng &r, const std::string &s) {
    std::ostringstream o;
    o << '"';
    for (unsigned char ch : s) {
        char b[8];
        if (ch == '"' || ch == '\\') o << '\\' << ch;
        else if (ch < 0x20 || (ch < 0x80 && r.chance(1, 20))) { snprintf(b, sizeof b, "\\u%04x", ch); o << b; }
        else o << ch;
    }
    o << '"';
    return o.str();
}
std::string ws(vh::Rng &r) {
    static const char *w[] = {"", "", " ", "\n", "\t", "  \n"};
    return w[r.below(6)];
}
std::string value(vh::Rng &r) {
    static const char *v[] = {"1", "null", "\"x\"", "[1,{}]", "{\"id\":3}", "-2.5e3", "true"};
    return v[r.below(7)];
}
std::string object(vh::Rng &r, std::vector<std::pair<std::string, std::string>> kv) {
    if (r.chance(1, 3)) kv.push_back({"comment", value(r)});
    for (size_t i = kv.size(); i > 1; --i) std::swap(kv[i - 1], kv[r.below(i)]);
    std::string o = "{" + ws(r);
    for (size_t i = 0; i < kv.size(); ++i) o += (i ? "," + ws(r) : "") + "\"" + kv[i].first + "\"" + ws(r) + ":" + ws(r) + kv[i].second + ws(r);
    return o + "}";
}
std::string array(vh::Rng &r, const std::vector<std::string> &v) {
    std::string o = "[" + ws(r);
    for (size_t i = 0; i < v.size(); ++i) o += (i ? "," + ws(r) : "") + v[i] + ws(r);
    return o + "]";
}
std::string idText(vh::Rng &r) {
    static const char *parts[] = {"state", "\xc3\xa9", " ", "\"", "\\", "\n", "{", "1", "\xf0\x9f\x9a\x80", "/", ":", "//", "/*", "#", "\t"};
    std::string s;
    for (size_t n = r.range(1, 5); n; --n) s += parts[r.below(15)];
    return s;
}
std::string toJson(vh::Rng &r, const ConfigStateMachine &cfg) {
    std::vector<std::string> st;
    for (auto &s : cfg.states) {
        std::vector<std::string> tr;
        for (auto &t : s.transitions) tr.push_back(object(r, {{"destination", js(r, t.destinationId)}, {"event", js(r, t.event)}}));
        st.push_back(object(r, {{"id", js(r, s.id)}, {"transitions", array(r, tr)}}));
    }
    return object(r, {{"id", js(r, cfg.id)}, {"states", array(r, st)}});
}
bool same(const ConfigStateMachine &a, const ConfigStateMachine &b) { return show(a) == show(b) && a.states.size() == b.states.size(); }
} // namespace

VH_SCENARIO(sm_json)
{
    auto &r = c.rng;
    ConfigStateMachine cfg;
    cfg.id = idText(r);
    std::vector<std::string> names;
    for (size_t n = r.range(1, 6); n; --n) names.push_back(idText(r) + std::to_string(n));
    for (auto &nm : names) {
        ConfigState s;
        s.id = nm;
        for (size_t k = r.below(5); k; --k) s.transitions.push_back({names[r.below(names.size())], r.chance(1, 2) ? ev(r) : idText(r)});
        cfg.states.push_back(s);
    }
    std::string text = toJson(r, cfg), path = "c" + std::to_string(c.id) + ".json";
    auto write = [&](const std::string &t) { std::ofstream(path, std::ios::binary | std::ios::trunc) << t; };
    write(ws(r) + text + ws(r));
    JsonConfigLoader loader;
    ConfigStateMachine got = loader.loadConfig(path);
    VH_CHECK(same(got, cfg), "sm:config-differs", "loaded [" << show(got) << "] from [" << show(cfg) << "] written as " << text);
    // a machine made from the file behaves like the configuration
    auto sm = FromJson::createStateMachine(path);
    auto listener = FromJson::createStateMachineListener(path);
    Model m(cfg);
    std::vector<Seen> seen, want;
    std::map<std::string, long> hits, wantHits;
    sm->registerObserver([&](const std::string &s, bool ch) { seen.push_back({s, ch}); });
    sm->registerObserver(listener->getObserverFunc());
    for (auto &nm : names) listener->addAction(nm, [&, nm](const std::string &) { hits[nm]++; });
    m.started = true;
    want.push_back({m.name(), true});
    wantHits[m.cur]++;
    sm->start();
    long tr = 0;
    for (int i = 0; i < 15; ++i) {
        std::string e = ev(r);
        const ConfigState *s = m.state();
        if (s && !s->transitions.empty() && r.chance(2, 3)) e = s->transitions[r.below(s->transitions.size())].event;
        m.enqueue(e);
        bool ch;
        if (m.update(ch)) { want.push_back({m.name(), ch}); if (ch) { wantHits[m.cur]++; ++tr; } }
        sm->enqueueAndUpdate(e);
    }
    VH_CHECK(seen == want, "sm:from-file-behaviour", "machine made from " << text << " told [" << show(seen) << "], expected [" << show(want) << "]");
    VH_CHECK(hits == wantHits, "sm:from-file-actions", "the listener made from " << text << " ran other actions than the states entered");
    vh::count("configurations_loaded");
    vh::count("transitions_of_loaded_machines", tr);
    // damaged files are refused
    auto refused = [&](const std::string &t, const char *what, bool must) {
        write(t);
        bool threw = false;
        try { loader.loadConfig(path); } catch (std::exception &) { threw = true; }
        VH_CHECK(threw || !must, "sm:damaged-config-accepted", what << " was accepted: " << t);
        if (threw) vh::count("configurations_refused");
        bool threw2 = false;
        try { FromJson::createStateMachine(path); } catch (std::exception &) { threw2 = true; }
        VH_CHECK(threw == threw2, "sm:damaged-config-accepted", what << ": loading and creating disagree: " << t);
    };
    for (int i = 0; i < 3; ++i) refused(text.substr(0, r.below(text.size())), "a truncated configuration", true);
    for (int i = 0; i < 3; ++i) {
        std::string t = text;
        for (size_t k = 1 + r.below(3); k; --k) t[r.below(t.size())] = (char) r.range(1, 126);
        refused(t, "a damaged configuration", false);
    }
    {
        // text that is not JSON although it looks much like it: comments, raw line breaks inside of strings, stray commas ...
        static const char *after[] = {"// note\n", "/* note */", ",", "# note\n", ";"};
        std::string t = text;
        size_t q = text.find('"'), e = text.rfind('}');
        switch (r.below(5)) {
        case 0: case 1: t.insert(1, after[r.below(5)]); break;
        case 2: t.insert(q + 1, r.chance(1, 2) ? "\n" : "\t"); break;
        case 3: t.insert(e, ","); break;
        default: t[q] = '\''; break;
        }
        refused(t, "a configuration that is not JSON", true);
        vh::count("configurations_that_are_not_json");
    }
    refused("", "an empty configuration", true);
    static const char *wrong[] = {"{}", "[]", "{\"id\":\"a\"}", "{\"states\":[]}", "{\"id\":1,\"states\":[]}", "{\"id\":\"a\",\"states\":[{\"id\":\"b\"}]}",
                                  "{\"id\":\"a\",\"states\":[{\"id\":\"b\",\"transitions\":[{\"event\":\"x\"}]}]}", "{\"id\":\"a\",\"states\":[{\"id\":\"b\",\"transitions\":[{\"event\":1,\"destination\":\"b\"}]}]}",
                                  "\"text\"", "{\"id\":\"a\",\"states\":[{\"transitions\":[]}]}"};
    refused(wrong[r.below(10)], "an incomplete configuration", true);
    unlink(path.c_str());
    bool threw = false;
    try { loader.loadConfig(path); } catch (std::exception &) { threw = true; }
    VH_CHECK(threw, "sm:missing-config-accepted", "a missing file gave a configuration");
    c.desc << text.substr(0, 500);
    c.mark(vh::hashStr(text));
    c.nontrivial = tr > 0;
}
