/*
PURPOSE: (Events: variables and jobs conditions look at, probes around jobs, snapshots of the state of events.)
LIBRARY DEPENDENCIES: ((evt.cpp))
*/
#ifndef EVT_HH
#define EVT_HH
#include <string>
class Evt {
    public:
        bool b[4] ;      /* -- */
        int n[4] ;       /* -- calls */
        Evt() ;
        int mal(int k) ;
} ;
/* the commands verif.cpp does not know */
int evt_command(const std::string & line, std::string & extra) ;
/* the commands of all models */
int all_commands(const std::string & line, std::string & extra) ;
#endif
