/* Executes message operations read from stdin and records what every subscriber received. */
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <pthread.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <map>
#include <vector>
#include "trick/MessagePublisher.hh"
#include "trick/MessageCout.hh"
#include "trick/MessageThreadedCout.hh"
#include "trick/MessageLCout.hh"
#include "trick/MessageFile.hh"
#include "trick/MessageHSFile.hh"
#include "trick/MessageCustomFile.hh"
#include "trick/MessageCustomManager.hh"
#include "trick/MessageTCDevice.hh"
#include "trick/PlaybackFile.hh"
#include "trick/MemoryManager.hh"
#include "trick/CommandLineArguments.hh"
#include "trick/message_proto.h"
#include "trick/message_type.h"
#include "trick/Message_proto.hh"
#include "trick/tc_proto.h"
using namespace std;
static long long tics; static int ticv = 1000000;
extern "C" {
long long exec_get_time_tics() { return tics; }
int exec_get_time_tic_value() { return ticv; }
int exec_get_process_id() { return 7; }
int message_publish(int level, const char *format_msg, ...);
int vmessage_publish(int level, const char *format_msg, va_list args);
int send_hs(FILE *fp, const char *format_msg, ...);
int vsend_hs(FILE *fp, const char *format_msg, va_list args);
void *message_get_subscriber(const char *);
int mc_is_slave() { return 0; }
int message_add_subscriber(void *); int message_remove_subscriber(void *);
}
int message_subscribe(Trick::MessageSubscriber *); int message_unsubscribe(Trick::MessageSubscriber *);
static int vpub(int lv, const char *f, ...) { va_list a; va_start(a, f); int r = vmessage_publish(lv, f, a); va_end(a); return r; }
static int vshs(const char *f, ...) { va_list a; va_start(a, f); int r = vsend_hs(NULL, f, a); va_end(a); return r; }
static FILE *out; static string outf, dir; static long outpos;
static string js(const string &s) { string r; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static string slurp(const string &f, long &pos) {
    cout.flush(); ifstream i(f, ios::binary); i.seekg(0, ios::end); long n = i.tellg(); string r; if (n > pos) { r.resize(n - pos); i.seekg(pos); i.read(&r[0], n - pos); pos = n; } return r; }
struct Rec : public Trick::MessageSubscriber {
    string got; pthread_mutex_t m; int calls = 0; int nap = 0;
    Rec() { pthread_mutex_init(&m, NULL); name = "rec"; }
    void update(unsigned l, string h, string t) { if (nap) usleep(nap); pthread_mutex_lock(&m); calls++; got += h + t; char b[32]; snprintf(b, 32, "\x01%u\x02", l); got += b; pthread_mutex_unlock(&m); }
};
struct S { string kind, nm; Trick::MessageSubscriber *s; string file; long pos = 0; int fd = -1; Trick::MessageCustomManager *mgr = NULL; };
static vector<S> subs; static Trick::MessagePublisher *mp;
static string delta(S &s) {
    if (s.kind == "rec") { Rec *r = (Rec *)s.s; string g = r->got; r->got = ""; return g; }
    if (s.kind == "cout" || s.kind == "lcout" || s.kind == "thr" || s.kind == "none") return slurp(outf, outpos);
    if (s.fd >= 0) { string r; char b[65536]; ssize_t n; while ((n = recv(s.fd, b, sizeof b, MSG_DONTWAIT)) > 0) r.append(b, n); return r; }
    return slurp(s.file, s.pos);
}
static void got() { fprintf(out, ",\"got\":{"); bool f = true; bool so = false; for (auto &s : subs) { if (s.kind == "mgr") continue; if (s.kind == "cout" || s.kind == "lcout" || s.kind == "thr") so = true; fprintf(out, "%s\"%s\":\"%s\"", f ? "" : ",", s.nm.c_str(), js(delta(s)).c_str()); f = false; }
    if (!so) { S x; x.kind = "none"; fprintf(out, "%s\"none\":\"%s\"", f ? "" : ",", js(delta(x)).c_str()); } fprintf(out, "}"); }
static S *at(const string &n) { for (auto &s : subs) if (s.nm == n) return &s; return NULL; }
static string unesc(const string &s) { string r; for (size_t i = 0; i < s.size(); i++) if (s[i] == '\\' && i + 1 < s.size()) { i++; r += s[i] == 'n' ? '\n' : s[i] == 's' ? ' ' : s[i]; } else r += s[i]; return r; }
static string text(const string &w) { size_t k = w.find('*'); if (k != string::npos && isdigit(w[0])) { string r; int n = atoi(w.c_str()); string u = unesc(w.substr(k + 1)); while (n--) r += u; return r; } return unesc(w); }
#include <netinet/in.h>
#include <netinet/tcp.h>
static void tcppair(int *sv) { int l = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t n = sizeof a;
    bind(l, (sockaddr *)&a, n); listen(l, 1); getsockname(l, (sockaddr *)&a, &n); sv[1] = socket(AF_INET, SOCK_STREAM, 0); connect(sv[1], (sockaddr *)&a, n); sv[0] = accept(l, NULL, NULL); close(l); int one = 1; setsockopt(sv[0], IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); }
struct Par { int id, n, lv; };
static void publish(const string &how, int lv, const string &t) {
    if (how == "pub") mp->publish(lv, t); else if (how == "printf") message_publish(lv, "%s", t.c_str()); else if (how == "hs") send_hs(NULL, "%s", t.c_str());
    else if (how == "vpub") vpub(lv, "%s", t.c_str()); else vshs("%s", t.c_str());
}
static pthread_barrier_t bar;
static void *parrun(void *p) { Par *q = (Par *)p; pthread_barrier_wait(&bar); for (int i = 0; i < q->n; i++) { publish(i % 2 ? "pub" : "printf", q->lv, "m" + to_string(q->id) + "." + to_string(i) + ";"); } return NULL; }
static void *toggler(void *p) { S *s = (S *)p; for (int i = 0; i < 300; i++) { mp->unsubscribe(s->s); mp->subscribe(s->s); } return NULL; }
int main(int ac, char **av) {
    dir = av[1]; outf = dir + "/stdout"; out = fdopen(dup(1), "w"); int o = open(outf.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0600); dup2(o, 1);
    Trick::MemoryManager *mm = new Trick::MemoryManager; (void)mm; Trick::CommandLineArguments *cla = new Trick::CommandLineArguments; cla->output_dir = dir;
    mp = new Trick::MessagePublisher; mp->sim_name = "simname";
    Trick::MessageCustomManager *mgr = NULL; string line; int cn = 0;
    while (getline(cin, line)) {
        istringstream is(line); string op; is >> op; if (op.empty()) continue;
        if (op == "new") { string k, n; is >> k >> n; S s; s.kind = k; s.nm = n; int arg = 0; is >> arg;
            if (k == "rec") { s.s = new Rec; ((Rec *)s.s)->nap = arg; }
            else if (k == "cout") s.s = new Trick::MessageCout; else if (k == "lcout") s.s = new Trick::MessageLCout;
            else if (k == "thr") { auto t = new Trick::MessageThreadedCout; t->init(); s.s = t; }
            else if (k == "file" || k == "hs" || k == "play") { Trick::MessageFile *f = k == "file" ? new Trick::MessageFile : k == "hs" ? new Trick::MessageHSFile : (Trick::MessageFile *)new Trick::PlaybackFile; f->set_file_name("sub_" + n + "/f"); f->init(); s.s = f; s.file = dir + "/sub_" + n + "/f"; }
            else if (k == "cust") { auto f = new Trick::MessageCustomFile; f->set_level(arg); f->set_name(""); f->set_file_name("c_" + n); f->init(); s.s = f; s.file = dir + "/c_" + n; }
            else if (k == "mgr") { mgr = new Trick::MessageCustomManager; s.s = mgr; s.mgr = mgr; }
            else if (k == "tc") { auto d = new Trick::MessageTCDevice; TCDevice *c = (TCDevice *)calloc(1, sizeof(TCDevice)); int sv[2]; tcppair(sv); int z = 1 << 20; setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &z, sizeof z);
                c->socket = sv[0]; c->blockio_type = TC_COMM_BLOCKIO; c->disable_handshaking = TC_COMM_TRUE; c->error_handler = (TrickErrorHndlr *)calloc(1, sizeof(TrickErrorHndlr)); c->error_handler->report_level = TRICK_ERROR_ALL; d->add_connection(c); s.s = d; s.fd = sv[1]; }
            if (s.kind != "mgr" && s.kind != "thr") s.s->name = n; else s.s->name = n;
            subs.push_back(s); fprintf(out, "{\"e\":\"new\",\"k\":\"%s\",\"n\":\"%s\",\"lv\":%d,\"col\":%d}\n", k.c_str(), n.c_str(), arg, (int)s.s->color);
        } else if (op == "open") { string n; int lv; is >> n >> lv; S s; s.kind = "cfile"; s.nm = n; s.file = dir + "/m_" + n; size_t before = subs.size(); int r = open_custom_message_file("m_" + n, n, lv);
            s.s = NULL; subs.push_back(s); fprintf(out, "{\"e\":\"open\",\"n\":\"%s\",\"lv\":%d,\"r\":%d}\n", n.c_str(), lv, r);
        } else if (op == "sub" || op == "unsub") { string n; is >> n; S *s = at(n); if (!s || !s->s) continue; int w = rand() % 3;
            if (op == "sub") { if (w == 0) mp->subscribe(s->s); else if (w == 1) message_subscribe(s->s); else message_add_subscriber(s->s); }
            else { if (w == 0) mp->unsubscribe(s->s); else if (w == 1) message_unsubscribe(s->s); else message_remove_subscriber(s->s); }
            fprintf(out, "{\"e\":\"%s\",\"n\":\"%s\"}\n", op.c_str(), n.c_str());
        } else if (op == "en" || op == "col") { string n; int v; is >> n >> v; S *s = at(n); if (!s || !s->s) continue; if (op == "en") s->s->set_enabled(v); else s->s->set_color(v); fprintf(out, "{\"e\":\"%s\",\"n\":\"%s\",\"v\":%d}\n", op.c_str(), n.c_str(), v);
        } else if (op == "get") { string n; is >> n; void *r = message_get_subscriber(n.c_str()); string f = ""; for (auto &s : subs) if (s.s && (void *)s.s == r) f = s.nm; fprintf(out, "{\"e\":\"get\",\"n\":\"%s\",\"r\":\"%s\"}\n", n.c_str(), r ? (f.size() ? f.c_str() : "?") : "");
        } else if (op == "time") { long v; is >> tics >> v; if (v) { ticv = v; mp->init(); } fprintf(out, "{\"e\":\"time\",\"tics\":%lld,\"tps\":%d}\n", tics, ticv);
        } else if (op == "pub") { string how, w; int lv; is >> how >> lv >> w; string t = text(w); publish(how, lv, t);
            for (auto &s : subs) if (s.kind == "thr") usleep(0), ((Trick::MessageThreadedCout *)s.s)->shutdown();
            fprintf(out, "{\"e\":\"pub\",\"how\":\"%s\",\"lv\":%d,\"t\":\"%s\"", how.c_str(), how == "hs" || how == "vhs" ? 0 : lv, js(t).c_str()); got(); fprintf(out, "}\n");
        } else if (op == "par") { int k, n, lv; string tg; is >> k >> n >> lv >> tg; vector<Par> ps; vector<pthread_t> th(k + 1); for (int i = 0; i < k; i++) ps.push_back(Par{i, n, lv});
            pthread_barrier_init(&bar, NULL, k); for (int i = 0; i < k; i++) pthread_create(&th[i], NULL, parrun, &ps[i]);
            S *g = tg.size() ? at(tg) : NULL; if (g && g->s) pthread_create(&th[k], NULL, toggler, g);
            for (int i = 0; i < k; i++) pthread_join(th[i], NULL); if (g && g->s) pthread_join(th[k], NULL);
            for (auto &s : subs) if (s.kind == "thr") ((Trick::MessageThreadedCout *)s.s)->shutdown();
            fprintf(out, "{\"e\":\"par\",\"k\":%d,\"cnt\":%d,\"lv\":%d,\"tog\":\"%s\"", k, n, lv, g && g->s ? tg.c_str() : ""); got(); fprintf(out, "}\n");
        }
        fflush(out);
    }
    fprintf(out, "{\"e\":\"end\"}\n"); fflush(out); _exit(0);
}
