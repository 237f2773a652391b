// units of "Trick-05" logs, which no session reads
extern "C" int convert_units_spec(char *, char *) { return -1; }
