char verif_pgm[] = "uasm";
char *_pgmptr = verif_pgm;
