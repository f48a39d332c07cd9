typedef struct FILE FILE; extern FILE *stderr; int fprintf (FILE *, const char *, ...);
