/*
PURPOSE: (Events.)
*/
#include <map>
#include <vector>
#include <sstream>
#include "evt.hh"
#include "verif.hh"
#include "rec.hh"
#include "trick/IPPythonEvent.hh"
#include "trick/InstrumentBase.hh"
#include "trick/exec_proto.h"
#include "trick/exec_proto.hh"
#include "trick/input_processor_proto.h"
#include "trick/reference.h"

static Evt * the_evt = NULL ;
static std::string truth[4] ;
static std::map<std::string, Trick::IPPythonEvent *> evs ;

Evt::Evt() {
    for ( int k = 0 ; k < 4 ; k++ ) { b[k] = false ; n[k] = 0 ; }
    the_evt = this ;
}

int Evt::mal(int k) {
    const std::string & s = truth[k] ;
    int v = s.empty() ? 0 : s[n[k] % s.size()] == '1' ;
    n[k]++ ;
    std::ostringstream o ;
    o << "\"e\":\"mj\",\"k\":" << k << ",\"v\":" << v << ",\"t\":" << exec_get_time_tics() ;
    vlog(o.str().c_str()) ;
    return v ;
}

static const char * tf(bool x) { return x ? "true" : "false" ; }

static void snapshot(std::ostringstream & o) {
    o << ",\"ev\":{" ;
    for ( std::map<std::string, Trick::IPPythonEvent *>::iterator it = evs.begin() ; it != evs.end() ; ++it ) {
        Trick::IPPythonEvent * e = it->second ;
        o << (it == evs.begin() ? "\"" : ",\"") << it->first << "\":{\"active\":" << tf(e->is_active()) << ",\"added\":" << tf(e->added) << ",\"man\":" << tf(e->manual)
          << ",\"nf\":" << e->fired_count << ",\"tf\":" << (long long)e->fired_time << ",\"nr\":" << e->ran_count << ",\"tr\":" << (long long)e->ran_time << ",\"ran\":" << tf(e->ran)
          << ",\"c\":[" ;
        for ( int i = 0 ; i < e->condition_count ; i++ ) {
            Trick::condition_t * c = e->condition_list[i] ;
            o << (i ? "," : "") << "{\"on\":" << tf(c->enabled) << ",\"f\":" << tf(e->condition_fired(i)) << ",\"n\":" << e->condition_fired_count(i) << ",\"t\":" << (long long)e->condition_fired_time(i) << "}" ;
        }
        o << "],\"a\":[" ;
        for ( int i = 0 ; i < e->action_count ; i++ ) {
            Trick::action_t * a = e->action_list[i] ;
            o << (i ? "," : "") << "{\"on\":" << tf(a->enabled) << ",\"n\":" << e->action_ran_count(i) << ",\"t\":" << (long long)e->action_ran_time(i) << "}" ;
        }
        o << "]}" ;
    }
    o << "},\"m\":[" ;
    for ( int k = 0 ; k < 4 ; k++ ) {
        std::string n = "evobj.mal" + std::to_string(k) ;
        Trick::JobData * j = exec_get_job(n.c_str(), 1) ;
        o << (k ? "," : "") << tf(j == NULL || j->disabled) ;
    }
    o << "]" ;
}

class Probe : public Trick::InstrumentBase {
    public:
        std::string label ; char w ;
        Probe(Trick::JobData * j, const std::string & l, char in_w, unsigned short ph) : Trick::InstrumentBase(j), label(l), w(in_w) { name = "verif_probe" ; phase = ph ; }
        virtual int call() {
            std::ostringstream o ;
            o << "\"e\":\"pr\",\"j\":\"" << label << "\",\"w\":\"" << w << "\",\"t\":" << exec_get_time_tics() << ",\"tv\":" << exec_get_time_tic_value() ;
            if ( w == 'a' ) snapshot(o) ;
            vlog(o.str().c_str()) ;
            return 0 ;
        }
} ;

int evt_command(const std::string & line, std::string & extra) {
    std::istringstream is(line) ;
    std::string c, a, b ; int k = 0, v = 0 ;
    (void) extra ;
    is >> c ;
    if ( c == "probe" ) {      /* probe <label> <job> <instance> */
        is >> a >> b >> k ;
        Trick::JobData * j = exec_get_job(b.c_str(), k) ;
        if ( j == NULL ) return -1 ;
        j->add_inst_before(new Probe(j, a, 'b', 1)) ;
        j->add_inst_after(new Probe(j, a, 'm', 1)) ;
        j->add_inst_after(new Probe(j, a, 'a', 65535)) ;
        return 0 ;
    }
    if ( c == "py" ) { return ip_parse(line.c_str() + 3) ; }
    if ( c == "truth" ) { is >> k >> a ; truth[k] = a ; return 0 ; }
    if ( c == "setb" )  { is >> k >> v ; the_evt->b[k] = v != 0 ; return 0 ; }
    if ( c == "evreg" ) {
        is >> a ;
        REF2 * r = ref_attributes(a.c_str()) ;
        if ( r == NULL ) return -1 ;
        evs[a] = (Trick::IPPythonEvent *)r->address ;
        return 0 ;
    }
    return -98 ;
}

int all_commands(const std::string & line, std::string & extra) {
    int r = rec_command(line, extra) ;
    return (r == -98) ? evt_command(line, extra) : r ;
}
