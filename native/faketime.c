/* time() under the monitor's control: the clock is an input of C22 */
#include <stdlib.h>
#include <time.h>
time_t time( time_t *p ) { char *e = getenv( "VERIF_TIME" ); time_t t = e ? (time_t)atoll( e ) : 1000000000; if ( p ) *p = t; return t; }
