// Operations on the automaton library: table compression, and rules -> automaton.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "pass.hpp"
#include "Lexer/dfa_compressed.hpp"
#include "Lexer/dfa_simple.hpp"
#include "Lexer/regex_builder.hpp"
#include "Lexer/model_core.hpp"
#include "Lexer/dfa_mixer.hpp"
#include "Lexer/set_converter.hpp"
#include "Lexer/ecset_converter.hpp"
#include "Lexer/charset.hpp"
#include "Lexer/equivalence_class.hpp"
#include "Lexer/regex_model.hpp"
#define DTL_LINENO
#define DTL_CUSTOM_ACTION
#include "dragontooth.h"

using namespace std;
using namespace dragontooth;

// the code of a word whose rule asks for the callback; every third rule keeps its own
static uint32_t called(struct DTLexerState*, uint32_t rule) { return rule % 3 ? 5000 + rule : (uint32_t)-1; }

extern "C" long jps_live_blocks(void) __attribute__((weak));

namespace {
typedef void (*Put)(char, const void*, size_t);

void number(Put put, char tag, long v) {
    char b[32];
    int n = snprintf(b, sizeof b, "%ld", v);
    put(tag, b, n);
}

// a pass of a workflow that records what happens to it
struct Token : IPassable {
    string made;
    explicit Token(const string& s) : made(s) {}
};
vector<Token*> made;
Token* token(const string& s) {
    made.push_back(new Token(s));
    return made.back();
}
Put trace;
struct Step : Pass {
    string name;
    bool own;   // its branch gets data of its own
    Step(const string& n, bool o) : name(n), own(o) {}
    void event(const string& s) { trace('e', s.data(), s.size()); }
    void Setup() override { event("setup " + name); }
    IPassable* Execute(IPassable* data, IPassable* join) override {
        Token *d = (Token*)data, *j = (Token*)join;
        event("run " + name + " on " + d->made + (j ? " with " + j->made : "") + (cm ? " for " + cm->output() : ""));
        if (ec) { 
            error("error in " + name);
            warn("warn in " + name);
            info("info in " + name);
            debug("debug in " + name);
            fatal("fatal in " + name);
         }
        return token(d->made + name);
    }
    IPassable* Branch(IPassable* data) override {
        if (!own) return nullptr;
        event("branch " + name);
        return token("(" + name + ")");
    }
};

// c<number> | s<set> | q<text> | k<char> | p<preset> | l<n> item... (sequence) | o<n> item... (choice) | r item (named reference);
// a suffix ? * +, then maybe ~ (not greedy)
RegexItem* item(istringstream& in) {
    string t;
    if (!(in >> t)) abort();
    RegexItem::RegexExternOpt opt = RegexItem::re_none;
    bool lazy = false;
    if (t.size() > 1 && t[t.size() - 1] == '~') {
        lazy = true;
        t.erase(t.size() - 1);
    }
    char last = t[t.size() - 1];
    if (t.size() > 1 && (last == '?' || last == '*' || last == '+')) {
        opt = last == '?' ? RegexItem::re_optional : last == '*' ? RegexItem::re_repetition : RegexItem::re_nonzero_repetition;
        t.erase(t.size() - 1);
    }
    RegexItem* r = nullptr;
    if (t[0] == 'c') r = new RegexChar((regex_char)atoi(t.c_str() + 1));
    else if (t[0] == 's') r = new RegexSet(t.c_str() + 1);
    else if (t[0] == 'q') r = new RegexList(t.c_str() + 1);
    else if (t[0] == 'k') r = new RegexChar(t.c_str() + 1);
    else if (t[0] == 'p') r = RegexSet::getPreset(t.c_str() + 1);
    else if (t[0] == 'r') {
        RegexRefMapper m;
        RegexItem* def = item(in);
        m.Define("name", def);
        delete def;
        r = m.Find("name");
    } else {
        RegexList* l = new RegexList(t[0] == 'o');
        for (int n = atoi(t.c_str() + 1); n > 0; n--) l->Add(item(in));
        r = l;
    }
    r->setOpt(opt);
    if (lazy) r->setNonGreedy(true);
    return r;
}
}  // namespace

extern "C" int lib_op(const char* op, uint32_t nf, char** p, uint32_t* n, Put put) {
    if (!strcmp(op, "table")) {
        // 2 = inputs, 3 = order of the states, 4.. = one row per state, numbers from 1
        int inputs = atoi(string(p[2], n[2]).c_str());
        vector<vector<int> > rows(1, vector<int>(inputs, 0));
        for (uint32_t i = 4; i < nf; i++) {
            istringstream in(string(p[i], n[i]));
            vector<int> row(1, 0);
            int v;
            while (in >> v) row.push_back(v);
            rows.push_back(row);
        }
        int states = rows.size() - 1;
        unique_ptr<DFA> a(new DFACompressed(inputs)), b(new DFASimple(inputs));
        istringstream order(string(p[3], n[3]));
        int s, max = 0;
        while (order >> s) {
            // the mixer knows as many states as it has met so far
            if (s > max) max = s;
            for (size_t c = 0; c < rows[s].size(); c++) if (rows[s][c] > max) max = rows[s][c];
            a->addEdge(s, rows[s], max + 1);
            b->addEdge(s, rows[s], max + 1);
            if (s % 3 == 0) { a->setStopState(s, s * 7); b->setStopState(s, s * 7); }
        }
        number(put, 'n', a->getStateSum());
        number(put, 'n', a->getInputSize());
        for (s = 0; s <= states; s++) {
            string x, y;
            for (int c = 1; c < inputs; c++) {
                x += to_string(a->nextState(s, c)) + " ";
                y += to_string(b->nextState(s, c)) + " ";
            }
            put('a', x.data(), x.size());
            put('b', y.data(), y.size());
            number(put, 's', a->isStopState(s));
            number(put, 't', b->isStopState(s));
        }
        return 1;
    }
    if (!strcmp(op, "workflow")) {
        // 2 = level of the messages (d: default, s<n>: set later), 3 = where they go (f file, F stream of a file, s stream, n not set, r another
        // file after the first, t a stream after a file), then passes: name, flags (B branch data of its own, H holder, M messages),
        // index of the next, of the branch, of the joined holder (-1: none); the first one is run
        trace = put;
        vector<Pass*> all;
        string level(p[2], n[2]), where(p[3], n[3]);
        char f1[] = "/tmp/jpsXXXXXX", f2[] = "/tmp/jpsXXXXXX";
        close(mkstemp(f1));
        close(mkstemp(f2));
        ostringstream text;
        fstream opened;
        bool messages = false;
        long used[3];
        for (int turn = 0; turn < 3; turn++) {
            ErrorCenter* center = level[0] == 'd' || level[0] == 's' ? new ErrorCenter() : new ErrorCenter(atoi(level.c_str()));
            ConfigManager* config = new ConfigManager();
            if (level[0] == 's') center->setLevel(atoi(level.c_str() + 1));
            if (where == "f") center->setOutputFile(string(f1));
            if (where == "F") {
                opened.open(f1, ios::out | ios::trunc);
                center->setOutputFile(opened);
            }
            if (where == "s") center->setOutput(text);
            if (where == "r" || where == "t") center->setOutputFile(string(f2));
            if (turn == 0) {
                config->Value("output") = "name";
                for (uint32_t i = 4; i < nf; i += 5) {
                    string flags(p[i + 1], n[i + 1]);
                    if (flags.find('H') != string::npos) all.push_back(new DataHolder);   // not new DataHolder(), which would zero it
                    else all.push_back(new Step(string(p[i], n[i]), flags.find('B') != string::npos));
                    if (flags.find('M') != string::npos) messages = true;
                }
                for (uint32_t i = 4, k = 0; i < nf; i += 5, k++) {
                    int a = atoi(string(p[i + 2], n[i + 2]).c_str()), b = atoi(string(p[i + 3], n[i + 3]).c_str()), c = atoi(string(p[i + 4], n[i + 4]).c_str());
                    if (b >= 0 && all[k]->branch(all[b]) != all[k]) put('e', "branch returns another", 22);
                    if (c >= 0 && all[k]->join((DataHolder*)all[c]) != all[k]) put('e', "join returns another", 20);
                    if (a >= 0 && all[k]->next(all[a]) != all[a]) put('e', "next returns another", 20);
                }
                if (messages) all[0]->setAll(center, config);
                if (where == "r" || where == "t") {
                    center->Fatal("first");
                    if (where == "r") center->setOutputFile(string(f1));
                    else center->setOutput(text);
                }
                for (const char* start : {"0", "1", "2"}) {
                    Token* r = all[0]->ExecuteAll<Token>(token(start));
                    put('r', r->made.data(), r->made.size());
                    for (uint32_t i = 4, k = 0; i < nf; i += 5, k++)
                        if (DataHolder* h = dynamic_cast<DataHolder*>(all[k])) {
                            string x = h->getData<Token>()->made;
                            put('h', x.data(), x.size());
                        }
                }
                for (Pass* x : all) delete x;
                for (Token* x : made) delete x;
                made.clear();
            }
            delete center;
            delete config;
            if (where == "F") opened.close();
            if (turn == 0)
                for (char* f : {f1, f2}) {
                    ifstream in(f);
                    ostringstream o;
                    o << in.rdbuf();
                    string x = o.str();
                    put('l', x.data(), x.size());
                }
            used[turn] = jps_live_blocks ? jps_live_blocks() : 0;
        }
        put('l', text.str().data(), text.str().size());
        number(put, 'u', used[2] - used[1]);
        unlink(f1);
        unlink(f2);
        return 1;
    }
    if (!strcmp(op, "charset")) {
        // 2 = text of a set, 3 = another text
        CharSet a(string(p[2], n[2])), other(string(p[3], n[3])), copy(a);
        EquivalenceClass e, f;
        e.Add(a);
        f.Add(copy);
        e.Rearrage();
        f.Rearrage();
        for (EquivalenceClass* c : {&e, &f}) {
            string x;
            set<regex_char> in = c->makeSet(c == &e ? a : copy);
            for (int i = 1; i < 256; i++) x += in.count(c->getClass(i)) ? '1' : '0';
            put('m', x.data(), x.size());
        }
        number(put, 'q', a == copy);
        number(put, 'q', a == other);
        return 1;
    }
    if (!strcmp(op, "classes")) {
        // 2 = number of rules, then rules, then words
        int nr = atoi(string(p[2], n[2]).c_str());
        RegexModel* model = new RegexModel();
        for (int i = 0; i < nr; i++) {
            istringstream in(string(p[3 + i], n[3 + i]));
            model->Add(item(in));
        }
        model->input_max = 256;
        ECSetConverter* start = new ECSetConverter();
        RegexBuilder* builder = new RegexBuilder();
        DFAMixer* mixer = new DFAMixer();
        start->next(builder)->next(mixer);
        RegexModel* data = start->ExecuteAll<RegexModel>(model);
        DFA* dfa = data->main_dfa;
        number(put, 'n', data->input_max);
        number(put, 'n', start->size());
        string x;
        for (int i = 0; i < data->ec->getInputMax(); i++) x += to_string(data->ec->getClass(i)) + " ";
        put('m', x.data(), x.size());
        number(put, 'b', data->ec->getClass(256));
        number(put, 'b', data->ec->getClass(1000000));
        for (uint32_t i = 3 + nr; i < nf; i++) {
            istringstream in(string(p[i], n[i]));
            int st = 1, c, alive = 0;
            vector<regex_char> word;
            while (in >> c) word.push_back(c);
            x = "";
            for (regex_char k : data->ec->makeString(word)) {
                x += to_string(k) + " ";
                if (st) {
                    st = dfa->nextState(st, k);
                    if (st) alive++;
                }
            }
            put('c', x.data(), x.size());
            number(put, 'w', alive);
            number(put, 'r', st ? dfa->isStopState(st) : 0);
            x = "";
            if (st) for (int k : mixer->accepted[st]) x += to_string(k) + " ";
            put('a', x.data(), x.size());
        }
        delete model;
        delete start;
        delete builder;
        delete mixer;
        return 1;
    }
    if (!strcmp(op, "rules")) {
        // 2 = inputs, 3 = number of rules, then (prerequisites, rule) pairs, then "start word" fields
        // with "ids" after the number of rules, they are added by id and name, and what is kept of each is shown
        int inputs = atoi(string(p[2], n[2]).c_str()), nr = atoi(string(p[3], n[3]).c_str());
        bool ids = string(p[3], n[3]).find("ids") != string::npos;
        RegexModel* model = new RegexModel();
        for (int i = 0; i < nr; i++) {
            istringstream pre(string(p[4 + 2 * i], n[4 + 2 * i])), in(string(p[5 + 2 * i], n[5 + 2 * i]));
            string w;
            if (ids) {
                vector<string> all;
                while (pre >> w) all.push_back(w);
                string k = to_string(i), name = "rule" + to_string(i * i % 7);
                if (all.empty()) model->Add(100 + 3 * i, name, "v" + k, "s" + k);
                else model->Add(100 + 3 * i, name, "v" + k, "s" + k, all, "c" + k);
                model->at(i)->root = item(in);
                continue;
            }
            model->Add(item(in));
            while (pre >> w) model->at(i)->prerequisites.insert(w);
        }
        model->input_max = inputs;
        SetConverter* start = new SetConverter();
        RegexBuilder* builder = new RegexBuilder();
        DFAMixer* mixer = new DFAMixer();
        start->next(builder)->next(mixer);
        RegexModel* data = start->ExecuteAll<RegexModel>(model);
        DFA* dfa = data->main_dfa;
        number(put, 'n', dfa->getStateSum());
        for (int i = 0; ids && i < nr; i++) {
            auto* k = model->at(i);
            auto* f = model->find(k->name);
            string x = to_string(k->id) + " " + k->name + " " + k->value_name + " " + k->source + " " + k->script + " " + to_string(k->rank) + " " +
                to_string(f ? f->rank : -1) + " " + to_string(model->getIDArray().at(i + 1)) + " " + model->getIDNames().at(i + 1) + " " +
                to_string(model->getIDArray().size()) + " " + to_string(model->getIDNames().size()) + " " + to_string(model->getActionCodes().size()) + " " +
                to_string(model->size()) + " " + to_string(model->find("rule") != nullptr);
            put('m', x.data(), x.size());
        }
        for (uint32_t i = 4 + 2 * nr; i < nf; i++) {
            istringstream in(string(p[i], n[i]));
            int st, c, alive = 0, len = 0;
            in >> st;
            while (in >> c) {
                int next = dfa->nextState(st, c);
                len++;
                if (next) alive = len;
                st = next;
                if (!st) break;
            }
            number(put, 'w', alive);
            number(put, 'r', st ? dfa->isStopState(st) : 0);
            string x;
            if (st) for (int k : mixer->accepted[st]) x += to_string(k) + " ";
            put('a', x.data(), x.size());
        }
        delete model;
        delete start;
        delete builder;
        delete mixer;
        return 1;
    }
    if (!strcmp(op, "lexer")) {
        // 2 = inputs, 3 = number of rules, 4 = classes of the 256 bytes, then (prerequisites, rule, action) triples, then texts
        int inputs = atoi(string(p[2], n[2]).c_str()), nr = atoi(string(p[3], n[3]).c_str());
        RegexModel* model = new RegexModel();
        vector<uint32_t> action(nr + 1, 0), token(nr + 1, 0), ec;
        vector<string> names(1, "");
        for (int i = 0; i < nr; i++) {
            istringstream pre(string(p[5 + 3 * i], n[5 + 3 * i])), in(string(p[6 + 3 * i], n[6 + 3 * i]));
            model->Add(item(in));
            string w;
            while (pre >> w) model->at(i)->prerequisites.insert(w);
            action[i + 1] = strtoul(string(p[7 + 3 * i], n[7 + 3 * i]).c_str(), NULL, 10);
            token[i + 1] = 100 + i;
            names.push_back("T" + to_string(i + 1));
        }
        vector<const char*> ids;
        for (string& x : names) ids.push_back(x.c_str());
        istringstream cl(string(p[4], n[4]));
        uint32_t v;
        while (cl >> v) ec.push_back(v);
        model->input_max = inputs;
        SetConverter* start = new SetConverter();
        RegexBuilder* builder = new RegexBuilder();
        DFAMixer* mixer = new DFAMixer();
        start->next(builder)->next(mixer);
        DFACompressed* dfa = (DFACompressed*)(start->ExecuteAll<RegexModel>(model)->main_dfa);
        int states = dfa->getStateSum();
        DTLexerState* ls = dtl_Create();
        ls->m_base = dfa->m_base.data();
        ls->m_next = dfa->m_next.data();
        ls->m_check = dfa->m_check.data();
        ls->m_default = dfa->m_default.data();
        ls->m_stop_state = dfa->getStopState().data();
        ls->bottom = dfa->getBottom();
        ls->m_action = action.data();
        ls->m_token = token.data();
        ls->m_ec = ec.data();
        ls->m_id_name = ids.data();
        ls->state_num = states;
        ls->input_size = inputs;
        dtl_SetActionCallback(ls, called);
        bool plain = true;
        for (uint32_t a : action) if (a) plain = false;
        for (int s = 0; s < states; s++) {
            string x, y;
            for (int c = 0; c < inputs; c++) {
                x += to_string(dfa->nextState(s, c)) + " ";
                y += to_string((long)dtl_nextState(ls, s, c)) + " ";
            }
            put('a', x.data(), x.size());
            put('b', y.data(), y.size());
            number(put, 's', dfa->isStopState(s));
            number(put, 't', dtl_isStopState(ls, s));
        }
        if (plain) dtl_fastmode_init(ls);
        for (uint32_t i = 5 + 3 * nr; i < nf; i++) {
            char* text = (char*)malloc(n[i] + 1);
            memcpy(text, p[i], n[i]);
            text[n[i]] = 0;
            string x;
            ls->begin_state = 1;
            ls->begin_stack->size = 1;
            ls->line = ls->line_begin = 0;
            dtl_SetBuffer(ls, text);
            bool bad = false;
            for (uint32_t k = 0; k < n[i] + 3; k++) {
                DTLexerToken t;
                const char* from = ls->head;
                int code = dtl_Next(ls, &t);
                if (code > 0) {
                    x += to_string(code) + "," + to_string(t.rule) + "," + to_string(t.data - text) + "," + to_string(t.size) + "," + dtl_getTokenName(ls, t.rule);
                    char* copy = dtl_SaveToken(&t);
                    if (strlen(copy) != t.size || memcmp(copy, t.data, t.size)) x += "!";
                    free(copy);
                    copy = t.size > 1 ? dtl_SaveString(&t) : NULL;
                    if (copy && (strlen(copy) != t.size - 2 || memcmp(copy, t.data + 1, t.size - 2))) x += "?";
                    free(copy);
                    x += t.save_flag ? "s" : "";
                    x += "," + to_string(ls->line) + "," + to_string(ls->line_begin) + " ";
                } else {
                    x += to_string(code) + "@" + to_string(ls->head - text) + " ";
                    if (code < 0) bad = true;
                    if (code == 0 || ls->head == from) break;
                }
            }
            put('x', x.data(), x.size());
            x = "";
            if (plain && !bad) {
                DTLexerToken t;
                dtl_SetBuffer(ls, text);
                ls->tokens->size = 0;
                dtl_fastmode(ls, &t);
                for (size_t k = 0; k < ls->tokens->size; k++) x += to_string(ls->tokens->data[k]) + " ";
            }
            put('f', x.data(), x.size());
            free(text);
        }
        dtl_Free(ls);
        delete model;
        delete start;
        delete builder;
        delete mixer;
        return 1;
    }
    return 0;
}
