/*
PURPOSE: (Scenario driven sim object: jobs are created from a scenario file, every call is logged as one event.)
*/
#ifndef VERIF_HH
#define VERIF_HH

#include <string>
#include "trick/SimObject.hh"
#include "trick/JobData.hh"

#define VERIF_MAXJ 24

/* one ndjson line to $VERIF_TRACE, written under a lock; json is the inside of the object */
void vlog(const char * json) ;
/* executes one scenario command (also callable from the input file), logs it with its result */
int vact(const char * line) ;
/* loads $VERIF_SCN: settings and objects */
void vload() ;
/* called by jobs that are declared in the S_define */
int vcall(Trick::JobData * job) ;

/* commands of other models: called for a command that is not known here (result -98: not known there either) */
extern int (*vext)(const std::string & line, std::string & extra) ;

class VObj : public Trick::SimObject {
    public:
        int calls[VERIF_MAXJ] ;   /* number of calls of each job */
        double acc ;              /* order sensitive accumulator */
        int vi ;                  /* a plain value */
        double vd ;               /* a plain value */

        VObj() ;
        ~VObj() ;
        int job_called(Trick::JobData * job) ;
        virtual int call_function( Trick::JobData * curr_job ) ;
        virtual double call_function_double( Trick::JobData * curr_job ) ;
} ;

#endif
