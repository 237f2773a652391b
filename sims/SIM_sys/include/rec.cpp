/*
PURPOSE: (Commands on the record and on data recording groups.)
*/
#include <cstdlib>
#include <sstream>
#include <iostream>
#include "rec.hh"
#include "verif.hh"
#include "trick/DataRecordGroup.hh"
#include "trick/DataRecordDispatcher.hh"
#include "trick/data_record_proto.h"
extern Trick::DataRecordDispatcher * the_drd ;
#include "trick/exec_proto.h"

Rec * the_rec = NULL ;

Rec::Rec() : c('a'), uc(0), s(0), us(0), i(0), ui(0), l(0), ul(0), ll(0), ull(0), f(0), d(0), b(false), e(RED), b1(0), b2(0), b3(0), v(3, 0.0), vi(2, 0), i2(0) {
    for ( int k = 0 ; k < 4 ; k++ ) a[k] = 0 ;
    for ( int k = 0 ; k < 6 ; k++ ) m[k / 3][k % 3] = 0 ;
    for ( int k = 0 ; k < 12 ; k++ ) { x[k] = 0 ; y[k] = 0 ; }
    p = &i ;
    the_rec = this ;
}

int Rec::set(const std::string & n, const std::string & w) {
    const char * q = w.c_str() ;
    long long k = strtoll(q, NULL, 0) ; unsigned long long u = strtoull(q, NULL, 0) ; double z = strtod(q, NULL) ;
    if ( n == "c" ) c = (char)k ; else if ( n == "uc" ) uc = k ; else if ( n == "s" ) s = k ; else if ( n == "us" ) us = k ;
    else if ( n == "i" ) i = k ; else if ( n == "ui" ) ui = u ; else if ( n == "l" ) l = k ; else if ( n == "ul" ) ul = u ;
    else if ( n == "ll" ) ll = k ; else if ( n == "ull" ) ull = u ; else if ( n == "f" ) f = (float)z ; else if ( n == "d" ) d = z ;
    else if ( n == "b" ) b = k != 0 ; else if ( n == "e" ) e = (RecColor)k ; else if ( n == "b1" ) b1 = k ; else if ( n == "b2" ) b2 = k ;
    else if ( n == "b3" ) b3 = k ; else if ( n == "i2" ) i2 = k ; else if ( n == "str" ) str = w ;
    else if ( n == "p" ) { p = (w == "i") ? &i : (w == "i2") ? &i2 : (w == "x0") ? &x[0] : NULL ; }
    else if ( n.compare(0, 2, "a[") == 0 ) a[atoi(n.c_str() + 2)] = k ;
    else if ( n.compare(0, 2, "x[") == 0 ) x[atoi(n.c_str() + 2)] = k ;
    else if ( n.compare(0, 2, "y[") == 0 ) y[atoi(n.c_str() + 2)] = z ;
    else if ( n.compare(0, 2, "v[") == 0 ) v[atoi(n.c_str() + 2)] = z ;
    else if ( n.compare(0, 3, "vi[") == 0 ) vi[atoi(n.c_str() + 3)] = k ;
    else if ( n.compare(0, 2, "m[") == 0 ) m[atoi(n.c_str() + 2)][atoi(n.c_str() + 5)] = z ;
    else return -1 ;
    return 0 ;
}

int rec_command(const std::string & line, std::string & extra) {
    std::istringstream is(line) ;
    std::string c, a, b ; double d = 0 ;
    (void) extra ;
    is >> c ;
    if ( c == "set" )    { is >> a >> b ; return the_rec->set(a, b) ; }
    if ( c == "incx" )   { int k ; is >> k ; the_rec->x[k]++ ; extra = ",\"v\":" + std::to_string(the_rec->x[k]) ; return 0 ; }
    if ( c == "burst" ) {     /* the group records several rows in a row, the writer thread is told to write every sig rows */
        int k, cnt, sig ; is >> a >> k >> cnt >> sig ;
        extra = ",\"v0\":" + std::to_string(the_rec->x[k]) ;
        for ( int n = 1 ; n <= cnt ; n++ ) {
            the_rec->x[k]++ ;
            dr_record_now_group(a.c_str()) ;
            if ( sig > 0 && n % sig == 0 ) the_drd->signal_thread() ;
        }
        return 0 ;
    }
    if ( c == "dron" )   { is >> a ; return dr_enable_group(a.c_str()) ; }
    if ( c == "droff" )  { is >> a ; return dr_disable_group(a.c_str()) ; }
    if ( c == "dronall" )   { return dr_enable() ; }
    if ( c == "droffall" )  { return dr_disable() ; }
    if ( c == "drnow" )  { is >> a ; return dr_record_now_group(a.c_str()) ; }
    Trick::DataRecordGroup * g = NULL ;
    if ( c == "drcycle" || c == "dradd" || c == "drrem" ) {
        is >> a ; g = get_data_record_group(a) ;
        if ( g == NULL ) return -1 ;
    }
    if ( c == "drcycle" ) { is >> d ; return g->set_cycle(d) ; }
    if ( c == "dradd" )   { is >> d ; return g->add_cycle(d) ; }
    if ( c == "drrem" )   { return remove_data_record_group(g) ; }
    return -98 ;
}
