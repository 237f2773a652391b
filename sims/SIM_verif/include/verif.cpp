/*
PURPOSE: (Scenario driver.)
*/
#include <cstdio>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <pthread.h>
#include <unistd.h>
#include "verif.hh"
#include "trick/exec_proto.h"
#include "trick/exec_proto.hh"
#include "trick/Executive.hh"
#include "trick/Threads.hh"
#include "trick/memorymanager_c_intf.h"
#include "trick/MemoryManager.hh"
#include "trick/CheckPointRestart.hh"
#include "trick/CheckPointRestart_c_intf.hh"
#include "trick/message_proto.h"
#include "trick/ScheduledJobQueueInstrument.hh"

extern Trick::MemoryManager * trick_MM ;
extern Trick::CheckPointRestart * the_cpr ;

/* ---------------------------------------------------------------- log */
static pthread_mutex_t log_mutex = PTHREAD_MUTEX_INITIALIZER ;
static FILE * log_fp = NULL ;

void vlog(const char * json) {
    pthread_mutex_lock(&log_mutex) ;
    if ( log_fp == NULL ) {
        const char * p = getenv("VERIF_TRACE") ;
        if ( p != NULL ) log_fp = fopen(p, "a") ;
    }
    if ( log_fp != NULL ) {
        fprintf(log_fp, "{%s}\n", json) ;
        fflush(log_fp) ;
    }
    pthread_mutex_unlock(&log_mutex) ;
}

static void vlogf(const char * fmt, ...) {
    char buf[2048] ;
    va_list ap ;
    va_start(ap, fmt) ;
    vsnprintf(buf, sizeof(buf), fmt, ap) ;
    va_end(ap) ;
    vlog(buf) ;
}

/* ---------------------------------------------------------------- scenario */
struct JobRec {
    std::string name ;     /* object.job */
    int busy ;             /* microseconds the job takes */
    int calls ;            /* calls in this process */
    std::map<int, std::vector<std::string> > acts ;
} ;
struct JobDecl { std::string name, cls, tag ; int thread, phase ; double cycle, start, stop ; } ;
struct ObjDecl { std::string name ; bool late ; std::vector<JobDecl> jobs ; } ;

static std::vector<ObjDecl> objs ;
static std::map<std::string, JobRec> recs ;
static std::map<std::string, VObj *> live ;
static bool loaded = false ;
static bool log_returns = false ;   /* log the returns of jobs too */
static __thread Trick::JobData * curr = NULL ;    /* job that is executing a scenario action */

int (*vext)(const std::string &, std::string &) = NULL ;
static int do_cmd(const std::string & line, std::string & extra) ;

int vact(const char * line) {
    std::string extra ;
    long long t = exec_get_time_tics() ;
    int tv = (int)exec_get_time_tic_value() ;
    /* commands that do not return normally (terminate) are logged before they act */
    std::string c(line) ;
    bool pre = (c.compare(0, 4, "term") == 0) ;
    std::istringstream is(c) ;
    std::string w ;
    std::string args ;
    int n = 0 ;
    std::string cmd ;
    while ( is >> w ) {
        if ( n == 0 ) cmd = w ;
        else { if ( n > 1 ) args += "," ; args += "\"" + w + "\"" ; }
        n++ ;
    }
    if ( pre ) vlogf("\"e\":\"act\",\"c\":\"%s\",\"a\":[%s],\"t\":%lld,\"tv\":%d,\"r\":0", cmd.c_str(), args.c_str(), t, (int)exec_get_time_tic_value()) ;
    int r = do_cmd(c, extra) ;
    if ( !pre ) vlogf("\"e\":\"act\",\"c\":\"%s\",\"a\":[%s],\"t\":%lld,\"tv\":%d,\"r\":%d%s", cmd.c_str(), args.c_str(), t, tv, r, extra.c_str()) ;
    return r ;
}

/* returns the value the job returns to the scheduler */
static int called(JobRec & rec, Trick::JobData * job) {
    int n = ++rec.calls ;
    int ret = 0 ;
    int pid = exec_get_process_id() ;
    vlogf("\"e\":\"call\",\"j\":\"%s\",\"t\":%lld,\"ft\":%lld,\"th\":%d,\"m\":%d,\"n\":%d,\"tv\":%d", rec.name.c_str(), exec_get_time_tics(),
        exec_get_freeze_time_tics(), pid, (int)exec_get_mode(), n, (int)exec_get_time_tic_value()) ;
    Trick::JobData * saved = curr ;
    curr = job ;
    std::map<int, std::vector<std::string> >::iterator it = rec.acts.find(n) ;
    if ( it != rec.acts.end() ) {
        for ( unsigned int i = 0 ; i < it->second.size() ; i++ ) {
            if ( it->second[i].compare(0, 4, "ret ") == 0 ) {
                ret = atoi(it->second[i].c_str() + 4) ;
                vlogf("\"e\":\"act\",\"c\":\"ret\",\"a\":[],\"t\":%lld,\"r\":%d", exec_get_time_tics(), ret) ;
            } else {
                vact(it->second[i].c_str()) ;
            }
        }
    }
    curr = saved ;
    if ( rec.busy > 0 ) usleep(rec.busy) ;
    if ( log_returns ) vlogf("\"e\":\"ret\",\"j\":\"%s\",\"t\":%lld,\"ft\":0,\"th\":%d,\"m\":0,\"n\":%d", rec.name.c_str(), exec_get_time_tics(), pid, n) ;
    return ret ;
}

int vcall(Trick::JobData * job) {
    std::map<std::string, JobRec>::iterator it = recs.find(job->name) ;
    if ( it == recs.end() ) {
        JobRec r ; r.name = job->name ; r.busy = 0 ; r.calls = 0 ;
        it = recs.insert(std::make_pair(job->name, r)).first ;
    }
    if ( job->job_class_name == "instrumentation" ) {
        Trick::JobData * target = (Trick::JobData *)job->sup_class_data ;
        if ( target == NULL || target->name.compare(0, 6, "trick_") == 0 ) return 0 ;
        vlogf("\"e\":\"instr\",\"j\":\"%s\",\"tgt\":\"%s\"", job->name.c_str(), target->name.c_str()) ;
        return 0 ;
    }
    return called(it->second, job) ;
}

/* ---------------------------------------------------------------- objects */
VObj::VObj() : acc(0.0), vi(0), vd(0.0) { memset(calls, 0, sizeof(calls)) ; }
VObj::~VObj() {}

int VObj::job_called(Trick::JobData * job) {
    calls[job->id % VERIF_MAXJ]++ ;
    acc = acc * 0.5 + job->id ;
    return vcall(job) ;
}
int VObj::call_function( Trick::JobData * curr_job ) { return job_called(curr_job) ; }
double VObj::call_function_double( Trick::JobData * curr_job ) { job_called(curr_job) ; return 0.0 ; }

static int add_object(const std::string & name) {
    for ( unsigned int i = 0 ; i < objs.size() ; i++ ) {
        if ( objs[i].name == name ) {
            VObj * o = new VObj() ;
            for ( unsigned int k = 0 ; k < objs[i].jobs.size() ; k++ ) {
                JobDecl & d = objs[i].jobs[k] ;
                o->add_job(d.thread, k + 1, d.cls.c_str(), NULL, d.cycle, d.name.c_str(), d.tag.c_str(), d.phase, d.start, d.stop) ;
            }
            live[name] = o ;
            trick_MM->declare_extern_var(o, ("VObj " + name).c_str()) ;
            return exec_add_sim_object(o, name.c_str()) ;
        }
    }
    return -99 ;
}

static int del_object(const std::string & name) {
    std::map<std::string, VObj *>::iterator it = live.find(name) ;
    if ( it == live.end() ) return -99 ;
    int r = exec_remove_sim_object(it->second) ;
    live.erase(it) ;     /* not freed: the object may be the one that is executing */
    return r ;
}

static std::vector<std::pair<int, std::string> > trig ; /* thread triggers */
static void setting(const std::string & line) {
    std::istringstream is(line) ;
    std::string w, a, b ; double d ; int i ;
    is >> w ;
    if ( w == "obj" || w == "late" ) { ObjDecl o ; is >> o.name ; o.late = (w == "late") ; objs.push_back(o) ; }
    else if ( w == "job" ) {
        JobDecl j ;
        is >> j.name >> j.cls >> j.thread >> j.phase >> j.cycle >> j.start >> j.stop >> j.tag ;
        if ( j.tag == "-" ) j.tag = "" ;
        objs.back().jobs.push_back(j) ;
        JobRec r ; r.name = objs.back().name + "." + j.name ; r.busy = 0 ; r.calls = 0 ;
        recs[r.name] = r ;
    } else if ( w == "act" ) {
        int n ; std::string rest ;
        is >> a >> n ; std::getline(is, rest) ;
        size_t p = rest.find_first_not_of(' ') ;
        if ( recs.find(a) == recs.end() ) { JobRec r ; r.name = a ; r.busy = 0 ; r.calls = 0 ; recs[a] = r ; }
        recs[a].acts[n].push_back(rest.substr(p)) ;
    } else if ( w == "busy" ) { is >> a >> i ; recs[a].busy = i ; }
    else if ( w == "logret" ) { log_returns = true ; }
    else if ( w == "frame" ) { is >> d ; exec_set_software_frame(d) ; }
    else if ( w == "freezeframe" ) { is >> d ; exec_set_freeze_frame(d) ; }
    else if ( w == "tic" ) { is >> i ; exec_set_time_tic_value(i) ; }
    else if ( w == "stop" ) { is >> d ; exec_set_terminate_time(d) ; }
    else if ( w == "freezebound" ) { is >> i ; exec_set_freeze_on_frame_boundary(i) ; }
    else if ( w == "freezecmd" ) { is >> i ; exec_set_freeze_command(i) ; }
    else if ( w == "trigger" ) { is >> i >> a ; trig.push_back(std::make_pair(i, a)) ; }
    else if ( w == "rtnap" ) { is >> i ; exec_set_rt_nap(i) ; }
}

static std::vector<std::string> post ;   /* settings that need the jobs: executed after the objects exist */

void vload() {
    if ( loaded ) return ;
    loaded = true ;
    const char * p = getenv("VERIF_SCN") ;
    if ( p == NULL ) return ;
    std::ifstream f(p) ;
    std::string line ;
    while ( std::getline(f, line) ) {
        if ( line.empty() || line[0] == '#' ) continue ;
        if ( line.compare(0, 5, "post ") == 0 ) post.push_back(line.substr(5)) ;
        else setting(line) ;
    }
    for ( unsigned int i = 0 ; i < objs.size() ; i++ ) {
        if ( ! objs[i].late ) add_object(objs[i].name) ;
    }
    for ( unsigned int i = 0 ; i < post.size() ; i++ ) {
        std::string x ;
        do_cmd(post[i], x) ;
    }
    for ( unsigned int i = 0 ; i < trig.size() ; i++ ) {
        Trick::ThreadTriggerType t = trig[i].second == "flag" ? Trick::TT_FLAG : trig[i].second == "eventfd" ? Trick::TT_EVENTFD
            : trig[i].second == "futex" ? Trick::TT_FUTEX : Trick::TT_MUTEX ;
        exec_get_exec_cpp()->get_thread(trig[i].first)->trigger_container.setThreadTrigger(t) ;
    }
}

/* a job on one thread waits at a gate until a job on another opens it */
static int gate(const std::string & name, bool open) {
    static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER ;
    static std::set<std::string> opened ;
    for ( int k = 0 ; k < 40000 ; k++ ) {
        pthread_mutex_lock(&m) ;
        if ( open ) opened.insert(name) ;
        bool ok = opened.count(name) > 0 ;
        pthread_mutex_unlock(&m) ;
        if ( ok ) return 0 ;
        usleep(500) ;
    }
    return -1 ;
}

/* seconds as 1/64 s; anything else becomes a value nothing explains */
static std::string units64(double s) {
    double u = s * 64.0 ;
    long long v = llround(u) ;
    if ( fabs(u - v) > 1e-4 || fabs(u) > 2e9 ) v = -999999 ;
    return ",\"v\":" + std::to_string(v) ;
}

static int do_cmd(const std::string & line, std::string & extra) {
    std::istringstream is(line) ;
    std::string c, a, b ; double d = 0 ; int i = 0, k = 0 ;
    is >> c ;
    if ( c == "on" )       { is >> a ; return exec_set_job_onoff(a.c_str(), 1, 1) ; }
    if ( c == "off" )      { is >> a ; return exec_set_job_onoff(a.c_str(), 1, 0) ; }
    if ( c == "objon" )    { is >> a ; return exec_set_sim_object_onoff(a.c_str(), 1) ; }
    if ( c == "objoff" )   { is >> a ; return exec_set_sim_object_onoff(a.c_str(), 0) ; }
    if ( c == "jobson" )   { is >> a ; return exec_get_exec_cpp()->set_sim_object_jobs_onoff(a, 1) ; }
    if ( c == "jobsoff" )  { is >> a ; return exec_get_exec_cpp()->set_sim_object_jobs_onoff(a, 0) ; }
    if ( c == "getobj" )   { is >> a ; return exec_get_exec_cpp()->get_sim_object_onoff(a) ; }
    if ( c == "cycle" )    { is >> a >> d ; return exec_set_job_cycle(a.c_str(), 1, d) ; }
    if ( c == "freeze" )   { return exec_freeze() ; }
    if ( c == "freezeat" ) { is >> d ; return exec_get_exec_cpp()->freeze(d) ; }
    if ( c == "run" )      { return exec_run() ; }
    if ( c == "stopnow" )  { return exec_get_exec_cpp()->stop() ; }
    if ( c == "stopat" )   { is >> d ; return exec_set_terminate_time(d) ; }
    if ( c == "term" )     { is >> i ; return exec_terminate_with_return(i, "verif", 1, "scenario") ; }
    if ( c == "add" )      { is >> a ; return add_object(a) ; }
    if ( c == "del" )      { is >> a ; return del_object(a) ; }
    if ( c == "tic" )      { is >> i ; return exec_set_time_tic_value(i) ; }
    if ( c == "frame" )    { is >> d ; return exec_set_software_frame(d) ; }
    if ( c == "instb" )    { is >> a ; int r = exec_instrument_before(a.c_str()) ; return r < 0 ? r : 0 ; }
    if ( c == "insta" )    { is >> a ; int r = exec_instrument_after(a.c_str()) ; return r < 0 ? r : 0 ; }
    if ( c == "instb1" || c == "insta1" ) {
        is >> a >> b ;
        Trick::JobData * i = exec_get_job(a.c_str(), 1) ;
        Trick::JobData * t = exec_get_job(b.c_str(), 1) ;
        if ( i == NULL || t == NULL ) return -1 ;
        Trick::ScheduledJobQueueInstrument * n = new Trick::ScheduledJobQueueInstrument(i, t) ;
        return (c == "instb1") ? t->add_inst_before(n) : t->add_inst_after(n) ;
    }
    if ( c == "next" )     {
        is >> d ;
        long long v = (long long)(d * exec_get_time_tic_value() + 0.5) ;
        if ( curr->job_class_name == "freeze_automatic" ) curr->next_tics = exec_get_freeze_time_tics() + v ;
        else curr->next_tics = exec_get_time_tics() + v ;
        return 0 ;
    }
    if ( c == "instr" )    { is >> a ; return exec_instrument_remove(a.c_str()) ; }
    if ( c == "dep" )      { is >> a >> b ; return exec_add_depends_on_job(a.c_str(), 1, b.c_str(), 1) ; }
    if ( c == "thtype" )   { is >> i >> k ; return exec_set_thread_process_type(i, k) ; }
    if ( c == "amf" )      { is >> i >> d ; return exec_set_thread_amf_cycle_time(i, d) ; }
    if ( c == "async" )    { is >> i >> d ; return exec_set_thread_async_cycle_time(i, d) ; }
    if ( c == "wait" )     { is >> i >> k ; return exec_set_thread_async_wait(i, k) ; }
    if ( c == "then" )     { is >> i >> k ; return exec_set_thread_enabled(i, k) ; }
    if ( c == "ckpt" )     { is >> a ; return checkpoint(a.c_str()) ; }
    if ( c == "ckptat" )   { is >> d ; return the_cpr->checkpoint(d) ; }
    if ( c == "load" )     { is >> a ; return load_checkpoint(a.c_str()) ; }
    if ( c == "settime" )  { is >> d ; exec_set_time(d) ; return 0 ; }
    if ( c == "getterm" )  { extra = units64(exec_get_terminate_time()) ; return 0 ; }
    if ( c == "gettime" )  { extra = units64(exec_get_sim_time()) ; return 0 ; }
    if ( c == "getframe" ) { extra = units64(exec_get_software_frame_tics() / (double)exec_get_time_tic_value()) ; return 0 ; }
    if ( c == "getfftics" ) { extra = units64(exec_get_freeze_frame()) ; return 0 ; }
    if ( c == "getcyc" )   { is >> a ; extra = units64(exec_get_job_cycle(a.c_str())) ; return 0 ; }
    if ( c == "nap" )      { is >> i ; usleep(i) ; return 0 ; }
    if ( c == "gate" )     { is >> a ; return gate(a, false) ; }
    if ( c == "open" )     { is >> a ; return gate(a, true) ; }
    if ( c == "waitdone" ) {
        is >> i ;
        for ( k = 0 ; k < 40000 ; k++ ) {
            if ( *(volatile bool *)&exec_get_exec_cpp()->get_thread(i)->child_complete ) return 0 ;
            usleep(500) ;
        }
        return -1 ;
    }
    return vext != NULL ? vext(line, extra) : -98 ;
}
