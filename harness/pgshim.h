/* A stand-in for the parts of a PostgreSQL backend the extension uses: memory
 * contexts with callbacks, errors with longjmp, dynahash, tuples, value-per-call
 * set-returning functions, SPI connections.  Every palloc chunk is its own
 * malloc block, so AddressSanitizer sees each overrun and each use after free. */
#ifndef PGSHIM_H
#define PGSHIM_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { int natts; char **val; } PgRow;         /* val[i]==0: SQL NULL; malloc'd */
typedef struct PgQuery PgQuery;
typedef struct PgSite PgSite;
enum { PG_ROW = 0, PG_DONE = 1, PG_ERROR = 2, PG_NULL = 3 };
enum { FN_STANDARDIZE = 0, FN_PARSE = 1, FN_MATCH = 2, FN_COMPILE = 3 };

void pg_session_begin(void);
void pg_session_end(void);
/* spi: the query runs inside a function with an open SPI connection */
PgQuery *pg_query_begin(int spi);
void pg_query_end(PgQuery *q);                          /* also after an error */
PgSite *pg_site(PgQuery *q, int fn);                    /* one call expression of the query */
/* what CREATE FUNCTION says; types: OIDs of the columns, none for a plain result */
void pg_declare(int fn, void *symbol, int set, int strict, int natts, const unsigned *types);
/* an argument may be NULL (SQL NULL).  Non-set functions: one call.  Set functions: pg_call starts, pg_next goes on. */
int pg_call(PgSite *s, const char *const *arg, const int *packed, PgRow *row, char **err);
int pg_next(PgSite *s, PgRow *row, char **err);
void pg_abandon(PgSite *s);                             /* LIMIT reached, or the query failed elsewhere */
void pg_row_free(PgRow *r);
long pg_events(void);                                   /* module calls into the backend */
long pg_errors_raised(void);
long pg_live_chunks(void);
/* misuse of the backend found by the shim, one per line; NULL if none; resets */
char *pg_misuse(void);
void *pg_current_site(void);
#ifdef __cplusplus
}
#endif
#endif
