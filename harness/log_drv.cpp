// Reads recorded logs through the data products' stream classes; one JSON line per command.
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include "data_products/Log/DataStreamFactory.hh"
#include "data_products/Log/DataStreamGroup.hh"
#include "data_products/Log/TrickBinary.hh"
using namespace std;
static string num(double x) { char b[64]; snprintf(b, 64, "%.17g", x); return b; }
static string q(const string &s) { string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\""; }
int main() {
    map<string, DataStream *> st; map<string, DataStreamGroup *> gr; map<string, vector<string>> mem; DataStreamFactory f; string l;
    while (getline(cin, l)) {
        stringstream s(l); string c, id; s >> c >> id; string o = "{\"e\":\"" + c + "\",\"s\":" + q(id); double t = -7, v = -7;
        auto tv = [&](int r) { o += ",\"r\":" + to_string(r); if (r) o += ",\"t\":\"" + num(t) + "\",\"v\":\"" + num(v) + "\""; };
        if (c == "open") {
            string d, p; s >> d >> p; DataStream *x = f.create(d.c_str(), p.c_str(), "sys.exec.out.time"); st[id] = x;
            o += ",\"r\":" + string(x ? "1" : "0") + ",\"d\":" + q(d) + ",\"p\":" + q(p);
            if (x) o += ",\"f\":" + q(x->getFileName()) + ",\"u\":" + q(x->getUnit()) + ",\"tu\":" + q(x->getTimeUnit());
        }
        else if (c == "vars") {
            int n = 0; char **a = nullptr; int r = getVariableNames(id.c_str(), &n, &a); o += ",\"r\":" + to_string(r) + ",\"n\":[";
            for (int i = 0; i < n; i++) o += (i ? "," : "") + q(a[i]); o += "],\"u\":[";
            char **u = TrickBinaryGetVariableUnits(id.c_str()); for (int i = 0; i < n; i++) o += (i ? "," : "") + q(u[i]); o += "]";
        }
        else if (c == "get") tv(st[id]->get(&t, &v));
        else if (c == "peek") tv(st[id]->peek(&t, &v));
        else if (c == "step") o += ",\"r\":" + to_string(st[id]->step());
        else if (c == "begin") st[id]->begin();
        else if (c == "end") o += ",\"r\":" + to_string(st[id]->end() ? 1 : 0);
        else if (c == "at") { double w; s >> w; int r = st[id]->getValueAtTime(w, &v); o += ",\"w\":\"" + num(w) + "\",\"r\":" + to_string(r); if (r) o += ",\"v\":\"" + num(v) + "\""; }
        else if (c == "close") { delete st[id]; st.erase(id); }
        else if (c == "group") { auto g = gr[id] = new DataStreamGroup; string m; o += ",\"m\":["; int k = 0; while (s >> m) { g->add(st[m]); mem[id].push_back(m); o += (k++ ? "," : "") + q(m); } o += "]"; }
        else if (c == "gstart") { double w; s >> w; gr[id]->setStartTime(w); o += ",\"w\":\"" + num(w) + "\""; }
        else if (c == "gstop") { double w; s >> w; gr[id]->setStopTime(w); o += ",\"w\":\"" + num(w) + "\""; }
        else if (c == "gpres") { int w; s >> w; if (w) gr[id]->setPreserveTimeOn(); else gr[id]->setPreserveTimeOff(); o += ",\"w\":" + to_string(w); }
        else if (c == "gbegin") gr[id]->begin();
        else if (c == "gmatch") {
            int r = gr[id]->matchTimeStamps(); o += ",\"r\":" + to_string(r) + ",\"end\":" + to_string(gr[id]->end() ? 1 : 0);
            if (r) { o += ",\"l\":["; int k = 0; for (auto &m : mem[id]) { gr[id]->getLastRead(st[m], &t, &v); o += string(k++ ? "," : "") + "[\"" + num(t) + "\",\"" + num(v) + "\"]"; } o += "]"; }
        }
        else if (c == "gstep") { gr[id]->step(); o += ",\"end\":" + to_string(gr[id]->end() ? 1 : 0); if (!gr[id]->end()) { o += ",\"l\":["; int k = 0; for (auto &m : mem[id]) { int r = st[m]->peek(&t, &v); o += string(k++ ? "," : "") + (r ? "[\"" + num(t) + "\",\"" + num(v) + "\"]" : string("[\"\",\"\"]")); } o += "]"; } }
        cout << o << "}" << endl;
    }
}
