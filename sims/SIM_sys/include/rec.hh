/*
PURPOSE: (A record with a member of every kind, and commands on data recording groups.)
LIBRARY DEPENDENCIES: ((rec.cpp))
*/
#ifndef REC_HH
#define REC_HH
#include <vector>
#include <string>

enum RecColor { RED = 3, GREEN = -7, BLUE = 100000 } ;

class Rec {
    public:
        char c ;                  /* -- */
        unsigned char uc ;        /* -- */
        short s ;                 /* -- */
        unsigned short us ;       /* -- */
        int i ;                   /* m */
        unsigned int ui ;         /* -- */
        long l ;                  /* m/s */
        unsigned long ul ;        /* -- */
        long long ll ;            /* kg */
        unsigned long long ull ;  /* -- */
        float f ;                 /* -- */
        double d ;                /* m/s2 */
        bool b ;                  /* -- */
        RecColor e ;              /* -- */
        int b1 : 5 ;              /* -- */
        unsigned int b2 : 9 ;     /* -- */
        int b3 : 18 ;             /* -- */
        int a[4] ;                /* -- */
        double m[2][3] ;          /* m */
        std::vector<double> v ;   /* -- */
        std::vector<int> vi ;     /* -- */
        int * p ;                 /* -- */
        int i2 ;                  /* -- the other value p may point to */
        std::string str ;         /* -- */
        int x[12] ;               /* -- plain counters */
        double y[12] ;            /* -- plain values */
        Rec() ;
        /* sets one member, named as in a reference, from text; logs nothing */
        int set(const std::string & name, const std::string & value) ;
} ;

/* the commands verif.cpp does not know */
int rec_command(const std::string & line, std::string & extra) ;
extern Rec * the_rec ;
#endif
