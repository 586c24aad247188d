#include "postgres.h"
#include "funcapi.h"
#include "fmgr.h"
#include "miscadmin.h"
#include "access/htup_details.h"
#include "access/tupdesc.h"
#include "catalog/pg_type.h"
#include "executor/spi.h"
#include "utils/builtins.h"
#include "utils/hsearch.h"
#include "utils/memutils.h"
#include "nodes/execnodes.h"
#include "pgshim.h"
#undef printf
#undef fprintf
#undef snprintf
#undef vsnprintf
#undef sprintf
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>

/* ---- misuse log ---------------------------------------------------- */
static char misuse_buf[4096];
static size_t misuse_len;
static long events, errors_raised, live_chunks;
static void misuse(const char *fmt, ...)
{
    va_list ap;
    if (misuse_len > sizeof misuse_buf - 256) return;
    va_start(ap, fmt);
    misuse_len += (size_t) vsnprintf(misuse_buf + misuse_len, 250, fmt, ap);
    va_end(ap);
    misuse_buf[misuse_len++] = '\n'; misuse_buf[misuse_len] = 0;
}
char *pg_misuse(void)
{
    char *r = misuse_len ? strdup(misuse_buf) : NULL;
    misuse_len = 0; misuse_buf[0] = 0;
    return r;
}
long pg_events(void) { return events; }
long pg_errors_raised(void) { return errors_raised; }
long pg_live_chunks(void) { return live_chunks; }

/* ---- memory contexts ----------------------------------------------- */
MemoryContext CurrentMemoryContext, TopMemoryContext, ErrorContext, PostmasterContext, CacheMemoryContext,
    MessageContext, TopTransactionContext, CurTransactionContext, PortalContext;
#define MAGIC 0x5047u
typedef struct Chunk { struct Chunk *next, *prev; MemoryContext cx; Size size; uint64 magic; } Chunk;
/* the public part first, then the chunk list */
typedef struct { MemoryContextData d; Chunk *chunks; uint64 magic; } Cx;

static void *chunk_new(MemoryContext c, Size n)
{
    Cx *x = (Cx *) c;
    Chunk *k;
    if (!c) { misuse("allocation in a NULL memory context"); abort(); }
    if (x->magic != MAGIC) { misuse("allocation in a context that is gone"); abort(); }
    ++events; ++live_chunks;
    k = malloc(sizeof(Chunk) + n);
    memset(k + 1, 0x7f, n);              /* as CLOBBER_FREED_MEMORY builds do */
    k->size = n; k->cx = c; k->magic = MAGIC; k->prev = NULL; k->next = x->chunks;
    if (k->next) k->next->prev = k;
    x->chunks = k;
    c->isReset = false;
    return k + 1;
}
static void chunk_free(Chunk *k)
{
    Cx *x = (Cx *) k->cx;
    if (k->prev) k->prev->next = k->next; else x->chunks = k->next;
    if (k->next) k->next->prev = k->prev;
    k->magic = 0;
    --live_chunks;
    free(k);
}
void *palloc(Size n) { return chunk_new(CurrentMemoryContext, n); }
void *palloc0(Size n) { return memset(palloc(n), 0, n); }
void *palloc_extended(Size n, int f) { void *p = palloc(n); if (f & MCXT_ALLOC_ZERO) memset(p, 0, n); return p; }
void *MemoryContextAlloc(MemoryContext c, Size n) { return chunk_new(c, n); }
void *MemoryContextAllocZero(MemoryContext c, Size n) { return memset(chunk_new(c, n), 0, n); }
void *MemoryContextAllocZeroAligned(MemoryContext c, Size n) { return MemoryContextAllocZero(c, n); }
void *MemoryContextAllocExtended(MemoryContext c, Size n, int f) { void *p = chunk_new(c, n); if (f & MCXT_ALLOC_ZERO) memset(p, 0, n); return p; }
void *MemoryContextAllocHuge(MemoryContext c, Size n) { return chunk_new(c, n); }
void pfree(void *p) { Chunk *k = (Chunk *) p - 1; ++events; if (k->magic != MAGIC) { misuse("pfree of a pointer that is not a live chunk"); abort(); } chunk_free(k); }
void *repalloc(void *p, Size n)
{
    Chunk *k = (Chunk *) p - 1;
    void *q = chunk_new(k->cx, n);
    memcpy(q, p, k->size < n ? k->size : n);
    chunk_free(k);
    return q;
}
char *MemoryContextStrdup(MemoryContext c, const char *s) { Size n = strlen(s) + 1; return memcpy(chunk_new(c, n), s, n); }
char *pstrdup(const char *s) { return MemoryContextStrdup(CurrentMemoryContext, s); }
char *pnstrdup(const char *s, Size n) { Size m = strnlen(s, n); char *p = palloc(m + 1); memcpy(p, s, m); p[m] = 0; return p; }
char *psprintf(const char *fmt, ...)
{
    va_list ap; char *b = NULL, *r; int n;
    va_start(ap, fmt); n = vasprintf(&b, fmt, ap); va_end(ap);
    r = n < 0 ? pstrdup("") : pstrdup(b); free(b);
    return r;
}
MemoryContext GetMemoryChunkContext(void *p) { return ((Chunk *) p - 1)->cx; }
Size GetMemoryChunkSpace(void *p) { return ((Chunk *) p - 1)->size + sizeof(Chunk); }
MemoryContext MemoryContextGetParent(MemoryContext c) { return c->parent; }
bool MemoryContextIsEmpty(MemoryContext c) { return !c->firstchild && !((Cx *) c)->chunks; }

MemoryContext AllocSetContextCreateInternal(MemoryContext parent, const char *name, Size a, Size b, Size c)
{
    Cx *x = calloc(1, sizeof(Cx));
    ++events;
    if (parent && ((Cx *) parent)->magic != MAGIC) { misuse("context created under a context that is gone"); abort(); }
    x->magic = MAGIC;
    ((Node *) &x->d)->type = T_AllocSetContext;
    x->d.isReset = true; x->d.name = name; x->d.parent = parent;
    if (parent) {
        x->d.nextchild = parent->firstchild;
        if (parent->firstchild) parent->firstchild->prevchild = &x->d;
        parent->firstchild = &x->d;
    }
    return &x->d;
}
MemoryContext SlabContextCreate(MemoryContext p, const char *n, Size a, Size b) { return AllocSetContextCreateInternal(p, n, 0, 0, 0); }
MemoryContext GenerationContextCreate(MemoryContext p, const char *n, Size a, Size b, Size c) { return AllocSetContextCreateInternal(p, n, 0, 0, 0); }
void MemoryContextSetIdentifier(MemoryContext c, const char *id) { c->ident = id; }
void MemoryContextRegisterResetCallback(MemoryContext c, MemoryContextCallback *cb)
{
    ++events;
    cb->next = c->reset_cbs; c->reset_cbs = cb; c->isReset = false;
}
static void run_callbacks(MemoryContext c)
{
    MemoryContextCallback *cb;
    while ((cb = c->reset_cbs) != NULL) { c->reset_cbs = cb->next; cb->func(cb->arg); }
}
void MemoryContextDeleteChildren(MemoryContext c) { while (c->firstchild) MemoryContextDelete(c->firstchild); }
void MemoryContextDelete(MemoryContext c)
{
    ++events;
    if (((Cx *) c)->magic != MAGIC) { misuse("a memory context is deleted twice"); abort(); }
    if (c == CurrentMemoryContext) { misuse("the current memory context is deleted"); abort(); }
    MemoryContextDeleteChildren(c);
    run_callbacks(c);
    if (c->parent) {
        if (c->prevchild) c->prevchild->nextchild = c->nextchild; else c->parent->firstchild = c->nextchild;
        if (c->nextchild) c->nextchild->prevchild = c->prevchild;
    }
    while (((Cx *) c)->chunks) chunk_free(((Cx *) c)->chunks);
    ((Cx *) c)->magic = 0;
    free(c);
}
void MemoryContextResetOnly(MemoryContext c)
{
    run_callbacks(c);
    while (((Cx *) c)->chunks) chunk_free(((Cx *) c)->chunks);
    c->isReset = true;
}
void MemoryContextReset(MemoryContext c) { if (c->firstchild) MemoryContextDeleteChildren(c); MemoryContextResetOnly(c); }
void MemoryContextSetParent(MemoryContext c, MemoryContext np)
{
    if (c->parent) {
        if (c->prevchild) c->prevchild->nextchild = c->nextchild; else c->parent->firstchild = c->nextchild;
        if (c->nextchild) c->nextchild->prevchild = c->prevchild;
    }
    c->parent = np; c->prevchild = NULL; c->nextchild = NULL;
    if (np) { c->nextchild = np->firstchild; if (np->firstchild) np->firstchild->prevchild = c; np->firstchild = c; }
}

/* ---- errors -------------------------------------------------------- */
sigjmp_buf *PG_exception_stack;
ErrorContextCallback *error_context_stack;
static int cur_level;
static char err_text[8192];
volatile sig_atomic_t InterruptPending;
void ProcessInterrupts(void) {}
bool errstart(int level, const char *domain) { ++events; cur_level = level; err_text[0] = 0; return true; }
bool errstart_cold(int level, const char *domain) { return errstart(level, domain); }
static int put_err(const char *fmt, va_list ap) { vsnprintf(err_text, sizeof err_text, fmt, ap); return 0; }
int errmsg_internal(const char *fmt, ...) { va_list ap; va_start(ap, fmt); put_err(fmt, ap); va_end(ap); return 0; }
int errmsg(const char *fmt, ...) { va_list ap; va_start(ap, fmt); put_err(fmt, ap); va_end(ap); return 0; }
static int add_err(const char *fmt, va_list ap)
{ size_t n = strlen(err_text); if (n + 2 < sizeof err_text) { err_text[n] = ' '; err_text[n+1] = 0; vsnprintf(err_text + n + 1, sizeof err_text - n - 1, fmt, ap); } return 0; }
int errdetail(const char *fmt, ...) { va_list ap; va_start(ap, fmt); add_err(fmt, ap); va_end(ap); return 0; }
int errdetail_internal(const char *fmt, ...) { va_list ap; va_start(ap, fmt); add_err(fmt, ap); va_end(ap); return 0; }
int errhint(const char *fmt, ...) { va_list ap; va_start(ap, fmt); add_err(fmt, ap); va_end(ap); return 0; }
int errcontext_msg(const char *fmt, ...) { return 0; }
int errcode(int c) { return 0; }
int errhidestmt(bool b) { return 0; }
void errfinish(const char *f, int l, const char *fn)
{
    if (cur_level < ERROR) return;
    if (cur_level > ERROR) { misuse("FATAL or PANIC raised: %.150s", err_text); }
    ++errors_raised;
    if (!PG_exception_stack) { misuse("ERROR raised outside any query: %.150s", err_text); fprintf(stderr, "%s\n", misuse_buf); abort(); }
    siglongjmp(*PG_exception_stack, 1);
}
void pg_re_throw(void) { siglongjmp(*PG_exception_stack, 1); }
ErrorData *CopyErrorData(void) { ErrorData *e = palloc0(sizeof *e); e->elevel = cur_level; e->message = pstrdup(err_text); return e; }
void FlushErrorState(void) {}
void FreeErrorData(ErrorData *e) { pfree(e->message); pfree(e); }
void ReThrowError(ErrorData *e) { snprintf(err_text, sizeof err_text, "%s", e->message); pg_re_throw(); abort(); }
void ThrowErrorData(ErrorData *e) { ReThrowError(e); }
void ExceptionalCondition(const char *c, const char *f, int l) { misuse("assertion failed: %s", c); abort(); }

/* ---- SPI ----------------------------------------------------------- */
static int spi_depth, spi_floor;
int SPI_connect(void) { ++events; ++spi_depth; return SPI_OK_CONNECT; }
int SPI_finish(void)
{
    ++events;
    if (spi_depth > spi_floor) { --spi_depth; return SPI_OK_FINISH; }
    if (spi_depth > 0) { misuse("SPI_finish closes the SPI connection of the calling function"); --spi_depth; --spi_floor; return SPI_OK_FINISH; }
    return SPI_ERROR_UNCONNECTED;
}

/* ---- dynahash ------------------------------------------------------ */
typedef struct Ent { struct Ent *next; uint32 h; } Ent;
struct HTAB { HASHCTL c; int flags; Ent *list; Ent *removed; long n; };
static HTAB *htabs[64]; static int nhtabs;
HTAB *hash_create(const char *name, long n, const HASHCTL *info, int flags)
{
    HTAB *t = calloc(1, sizeof *t);
    ++events;
    t->c = *info; t->flags = flags;
    if (nhtabs < 64) htabs[nhtabs++] = t;
    return t;
}
static uint32 hkey(HTAB *t, const void *k)
{
    if (t->flags & HASH_FUNCTION) return t->c.hash(k, t->c.keysize);
    uint32 h = 2166136261u; const unsigned char *p = k;
    for (Size i = 0; i < t->c.keysize; ++i) { if (!(t->flags & HASH_BLOBS) && !p[i]) break; h = (h ^ p[i]) * 16777619u; }
    return h;
}
static bool heq(HTAB *t, const void *a, const void *b)
{ return (t->flags & HASH_STRINGS) ? strncmp(a, b, t->c.keysize) == 0 : memcmp(a, b, t->c.keysize) == 0; }
void *hash_search(HTAB *t, const void *key, HASHACTION act, bool *found)
{
    uint32 h; Ent **pp, *e;
    ++events;
    if (!t) { misuse("hash_search on a NULL table"); abort(); }
    h = hkey(t, key);
    while (t->removed) { e = t->removed; t->removed = e->next; free(e); }
    for (pp = &t->list; (e = *pp) != NULL; pp = &e->next)
        if (e->h == h && heq(t, e + 1, key)) break;
    if (found) *found = e != NULL;
    switch (act) {
        case HASH_FIND: return e ? e + 1 : NULL;
        case HASH_REMOVE:
            if (!e) return NULL;
            *pp = e->next; e->next = t->removed; t->removed = e; --t->n;
            return e + 1;
        default:
            if (e) return e + 1;
            e = malloc(sizeof(Ent) + t->c.entrysize);
            memset(e + 1, 0x7f, t->c.entrysize);
            memcpy(e + 1, key, t->c.keysize);
            e->h = h; e->next = t->list; t->list = e; ++t->n;
            return e + 1;
    }
}
void *hash_search_with_hash_value(HTAB *t, const void *key, uint32 h, HASHACTION a, bool *f) { return hash_search(t, key, a, f); }
uint32 get_hash_value(HTAB *t, const void *key) { return hkey(t, key); }
long hash_get_num_entries(HTAB *t) { return t->n; }
void hash_seq_init(HASH_SEQ_STATUS *s, HTAB *t) { s->hashp = t; s->curEntry = (HASHELEMENT *) t->list; }
void *hash_seq_search(HASH_SEQ_STATUS *s) { Ent *e = (Ent *) s->curEntry; if (!e) return NULL; s->curEntry = (HASHELEMENT *) e->next; return e + 1; }
void hash_seq_term(HASH_SEQ_STATUS *s) {}
void hash_destroy(HTAB *t)
{
    Ent *e;
    int i;
    if (!t) return;
    while ((e = t->list)) { t->list = e->next; free(e); }
    while ((e = t->removed)) { t->removed = e->next; free(e); }
    for (i = 0; i < nhtabs; ++i) if (htabs[i] == t) htabs[i] = htabs[--nhtabs];
    free(t);
}

/* ---- varlena and tuples ------------------------------------------- */
text *cstring_to_text_with_len(const char *s, int n) { text *t = palloc((Size) n + VARHDRSZ); SET_VARSIZE(t, n + VARHDRSZ); memcpy(VARDATA(t), s, (size_t) n); return t; }
text *cstring_to_text(const char *s) { return cstring_to_text_with_len(s, (int) strlen(s)); }
struct varlena *pg_detoast_datum(struct varlena *d)
{
    ++events;
    if (VARATT_IS_SHORT(d)) {
        Size n = VARSIZE_SHORT(d) - VARHDRSZ_SHORT;
        return (struct varlena *) cstring_to_text_with_len(VARDATA_SHORT(d), (int) n);
    }
    return d;
}
struct varlena *pg_detoast_datum_copy(struct varlena *d)
{
    Size n = VARSIZE_ANY_EXHDR(d);
    return (struct varlena *) cstring_to_text_with_len(VARDATA_ANY(d), (int) n);
}
struct varlena *pg_detoast_datum_packed(struct varlena *d) { return d; }
char *text_to_cstring(const text *t) { return pnstrdup(VARDATA_ANY(t), VARSIZE_ANY_EXHDR(t)); }
void text_to_cstring_buffer(const text *t, char *d, size_t n) { size_t l = VARSIZE_ANY_EXHDR(t); if (l >= n) l = n - 1; memcpy(d, VARDATA_ANY(t), l); d[l] = 0; }

#define MAXCOL 40
struct FnDef { const char *name; PGFunction fn; int nargs; bool set; int natts; Oid att[MAXCOL]; bool notstrict; };
extern Datum as_standardize(PG_FUNCTION_ARGS), as_parse(PG_FUNCTION_ARGS), as_match(PG_FUNCTION_ARGS), as_compile_lexicon(PG_FUNCTION_ARGS);
/* as declared in address_standardizer2--2.0.sql.in */
static struct FnDef FN[4] = {
    {"as_standardize", as_standardize, 5, false, 17, {TEXTOID, TEXTOID, TEXTOID, TEXTOID, TEXTOID, TEXTOID, TEXTOID, TEXTOID, TEXTOID, TEXTOID, TEXTOID, TEXTOID, TEXTOID, TEXTOID, TEXTOID, TEXTOID, TEXTOID}},
    {"as_parse", as_parse, 4, true, 5, {INT4OID, INT4OID, TEXTOID, TEXTOID, TEXTOID}},
    {"as_match", as_match, 5, true, 2, {TEXTOID, FLOAT8OID}},
    {"as_compile_lexicon", as_compile_lexicon, 1, false, 0, {0}},
};
void pg_declare(int fn, void *symbol, int set, int strict, int natts, const unsigned *types)
{
    struct FnDef *f = &FN[fn];
    int i;
    f->fn = (PGFunction) symbol; f->set = set; f->notstrict = !strict; f->natts = natts > MAXCOL ? MAXCOL : natts;
    for (i = 0; i < f->natts; ++i) f->att[i] = types[i];
}
typedef struct { HeapTupleHeaderData hdr; uint64 magic; int natts; char *val[MAXCOL]; } RowBlob;
static TupleDesc make_desc(struct FnDef *f)
{
    TupleDesc d = palloc0(offsetof(struct TupleDescData, attrs) + (Size) f->natts * sizeof(FormData_pg_attribute));
    int i;
    d->natts = f->natts; d->tdtypeid = RECORDOID; d->tdtypmod = -1; d->tdrefcount = -1;
    for (i = 0; i < f->natts; ++i) { TupleDescAttr(d, i)->atttypid = f->att[i]; TupleDescAttr(d, i)->atttypmod = -1; TupleDescAttr(d, i)->attnum = (AttrNumber)(i + 1); TupleDescAttr(d, i)->attbyval = f->att[i] != TEXTOID; TupleDescAttr(d, i)->attlen = f->att[i] == TEXTOID ? -1 : f->att[i] == INT2OID ? 2 : f->att[i] == BOOLOID ? 1 : f->att[i] == INT4OID || f->att[i] == FLOAT4OID ? 4 : 8; }
    return d;
}
TupleDesc BlessTupleDesc(TupleDesc d) { ++events; if (d->tdtypmod < 0) d->tdtypmod = 1; return d; }
TupleDesc CreateTupleDescCopy(TupleDesc d) { Size n = offsetof(struct TupleDescData, attrs) + (Size) d->natts * sizeof(FormData_pg_attribute); return memcpy(palloc(n), d, n); }
void FreeTupleDesc(TupleDesc d) { pfree(d); }
AttInMetadata *TupleDescGetAttInMetadata(TupleDesc d) { AttInMetadata *a = palloc0(sizeof *a); ++events; a->tupdesc = BlessTupleDesc(d); return a; }
static HeapTuple wrap(RowBlob *b) { HeapTuple t = palloc0(sizeof(HeapTupleData)); t->t_len = sizeof *b; t->t_data = &b->hdr; return t; }
static RowBlob *blob(TupleDesc d)
{
    RowBlob *b = palloc0(sizeof *b);
    if (d->tdtypmod < 0) misuse("a row is formed with a descriptor that was not blessed");
    b->magic = MAGIC; b->natts = d->natts;
    return b;
}
HeapTuple BuildTupleFromCStrings(AttInMetadata *a, char **values)
{
    RowBlob *b = blob(a->tupdesc);
    int i;
    ++events;
    for (i = 0; i < a->tupdesc->natts; ++i) {
        if (values[i] && TupleDescAttr(a->tupdesc, i)->atttypid != TEXTOID) { char *e; strtod(values[i], &e); if (!*values[i] || *e) elog(ERROR, "invalid input syntax: \"%s\"", values[i]); }
        b->val[i] = values[i] ? pstrdup(values[i]) : NULL;
    }
    return wrap(b);
}
HeapTuple heap_form_tuple(TupleDesc d, Datum *values, bool *isnull)
{
    RowBlob *b = blob(d);
    int i;
    ++events;
    for (i = 0; i < d->natts; ++i) {
        if (isnull[i]) continue;
        switch (TupleDescAttr(d, i)->atttypid) {
            case TEXTOID: { struct varlena *v = (struct varlena *) DatumGetPointer(values[i]); b->val[i] = pnstrdup(VARDATA_ANY(v), VARSIZE_ANY_EXHDR(v)); break; }
            case INT4OID: b->val[i] = psprintf("%d", DatumGetInt32(values[i])); break;
            case INT2OID: b->val[i] = psprintf("%d", (int) DatumGetInt16(values[i])); break;
            case INT8OID: b->val[i] = psprintf("%lld", (long long) DatumGetInt64(values[i])); break;
            case FLOAT4OID: b->val[i] = psprintf("%.9g", (double) DatumGetFloat4(values[i])); break;
            case BOOLOID: b->val[i] = pstrdup(DatumGetBool(values[i]) ? "t" : "f"); break;
            default: b->val[i] = psprintf("%.17g", DatumGetFloat8(values[i])); break;
        }
    }
    return wrap(b);
}
Datum HeapTupleHeaderGetDatum(HeapTupleHeader t) { ++events; return PointerGetDatum(t); }
void heap_freetuple(HeapTuple t) { pfree(t); }

/* ---- queries ------------------------------------------------------- */
struct PgQuery { MemoryContext cx, tuple; PgSite *sites; int spi; };
struct PgSite { PgSite *next; PgQuery *q; int fn; FmgrInfo fi; FunctionCallInfo fc; ReturnSetInfo rsi; ExprContext econtext; bool active; struct { void *p; char *copy; Size n; } arg[5]; MemoryContext argcx; };
static PgSite *current_site;
void *pg_current_site(void) { return current_site; }

TypeFuncClass get_call_result_type(FunctionCallInfo fcinfo, Oid *typ, TupleDesc *desc)
{
    struct FnDef *f = &FN[fcinfo->flinfo->fn_oid - 1000];
    ++events;
    if (typ) *typ = f->natts ? RECORDOID : TEXTOID;
    if (desc) *desc = NULL;
    if (!f->natts) return TYPEFUNC_SCALAR;
    if (desc) *desc = make_desc(f);
    return TYPEFUNC_COMPOSITE;
}
FuncCallContext *init_MultiFuncCall(PG_FUNCTION_ARGS)
{
    MemoryContext m; FuncCallContext *r;
    ++events;
    if (fcinfo->resultinfo == NULL || !IsA(fcinfo->resultinfo, ReturnSetInfo)) elog(ERROR, "set-valued function called in context that cannot accept a set");
    if (fcinfo->flinfo->fn_extra != NULL) elog(ERROR, "init_MultiFuncCall cannot be called more than once");
    m = AllocSetContextCreateInternal(fcinfo->flinfo->fn_mcxt, "SRF multi-call context", 0, 0, 0);
    r = MemoryContextAllocZero(m, sizeof *r);
    r->multi_call_memory_ctx = m;
    fcinfo->flinfo->fn_extra = r;
    return r;
}
FuncCallContext *per_MultiFuncCall(PG_FUNCTION_ARGS) { ++events; return fcinfo->flinfo->fn_extra; }
void end_MultiFuncCall(PG_FUNCTION_ARGS, FuncCallContext *f)
{
    ++events;
    fcinfo->flinfo->fn_extra = NULL;
    MemoryContextDelete(f->multi_call_memory_ctx);
}
void pg_session_begin(void)
{
    TopMemoryContext = AllocSetContextCreateInternal(NULL, "TopMemoryContext", 0, 0, 0);
    ErrorContext = AllocSetContextCreateInternal(TopMemoryContext, "ErrorContext", 0, 0, 0);
    CacheMemoryContext = AllocSetContextCreateInternal(TopMemoryContext, "CacheMemoryContext", 0, 0, 0);
    MessageContext = AllocSetContextCreateInternal(TopMemoryContext, "MessageContext", 0, 0, 0);
    TopTransactionContext = CurTransactionContext = AllocSetContextCreateInternal(TopMemoryContext, "TopTransactionContext", 0, 0, 0);
    PortalContext = NULL;
    CurrentMemoryContext = MessageContext;
    spi_depth = spi_floor = 0;
}
/* the tables a backend keeps live as long as the process, as the module's
   static pointer to them does; so only the contexts go */
void pg_session_end(void)
{
    MemoryContext t = TopMemoryContext;
    CurrentMemoryContext = NULL;
    MemoryContextDelete(t);
    TopMemoryContext = ErrorContext = CacheMemoryContext = MessageContext = TopTransactionContext = NULL;
}
PgQuery *pg_query_begin(int spi)
{
    PgQuery *q = calloc(1, sizeof *q);
    q->cx = AllocSetContextCreateInternal(TopMemoryContext, "ExecutorState", 0, 0, 0);
    q->tuple = AllocSetContextCreateInternal(q->cx, "ExprContext", 0, 0, 0);
    q->spi = spi;
    return q;
}
PgSite *pg_site(PgQuery *q, int fn)
{
    PgSite *s = calloc(1, sizeof *s);
    s->q = q; s->fn = fn; s->next = q->sites; q->sites = s;
    s->fi.fn_addr = FN[fn].fn; s->fi.fn_oid = (Oid)(1000 + fn); s->fi.fn_nargs = (short) FN[fn].nargs; s->fi.fn_strict = !FN[fn].notstrict;
    s->fi.fn_retset = FN[fn].set; s->fi.fn_mcxt = q->cx;
    s->fc = calloc(1, SizeForFunctionCallInfo(FN[fn].nargs));
    InitFunctionCallInfoData(*s->fc, &s->fi, (short) FN[fn].nargs, InvalidOid, NULL, NULL);
    s->rsi.type = T_ReturnSetInfo; s->rsi.econtext = &s->econtext; s->rsi.allowedModes = SFRM_ValuePerCall; s->rsi.returnMode = SFRM_ValuePerCall;
    s->econtext.type = T_ExprContext; s->econtext.ecxt_per_query_memory = q->cx; s->econtext.ecxt_per_tuple_memory = q->tuple;
    if (FN[fn].set) s->fc->resultinfo = (Node *) &s->rsi;
    return s;
}
static void drop_args(PgSite *s)
{
    int i;
    for (i = 0; i < FN[s->fn].nargs; ++i) if (s->arg[i].p) {
        if (memcmp(s->arg[i].p, s->arg[i].copy, s->arg[i].n)) misuse("argument %d of %s was changed by the call", i + 1, FN[s->fn].name);
        free(s->arg[i].p); free(s->arg[i].copy); s->arg[i].p = NULL;
    }
}
void pg_query_end(PgQuery *q)
{
    PgSite *s;
    CurrentMemoryContext = MessageContext;
    MemoryContextDelete(q->cx);
    while ((s = q->sites)) { q->sites = s->next; drop_args(s); free(s->fc); free(s); }
    free(q);
}
static void capture(PgSite *s, Datum d, PgRow *row)
{
    struct FnDef *f = &FN[s->fn];
    int i;
    if (f->natts == 0) {
        struct varlena *v = (struct varlena *) DatumGetPointer(d);
        row->natts = 1; row->val = calloc(1, sizeof(char *));
        row->val[0] = strndup(VARDATA_ANY(v), VARSIZE_ANY_EXHDR(v));
        return;
    }
    RowBlob *b = (RowBlob *) DatumGetPointer(d);
    if (b->magic != MAGIC) { misuse("%s returned something that is not a row", f->name); return; }
    row->natts = b->natts; row->val = calloc((size_t) b->natts + 1, sizeof(char *));
    for (i = 0; i < b->natts; ++i) row->val[i] = b->val[i] ? strdup(b->val[i]) : NULL;
}
void pg_row_free(PgRow *r) { int i; for (i = 0; i < r->natts; ++i) free(r->val[i]); free(r->val); r->natts = 0; r->val = NULL; }

static int invoke(PgSite *s, PgRow *row, char **err)
{
    sigjmp_buf jb, *save = PG_exception_stack;
    MemoryContext old = MessageContext;
    volatile int rc;
    volatile Datum d = 0;
    int floor = spi_floor;
    row->natts = 0; row->val = NULL; *err = NULL;
    current_site = s;
    if (s->q->spi) { ++spi_depth; spi_floor = spi_depth; }
    if (sigsetjmp(jb, 0) == 0) {
        PG_exception_stack = &jb;
        CurrentMemoryContext = s->q->tuple;
        s->fc->isnull = false; s->rsi.isDone = ExprSingleResult;
        d = s->fi.fn_addr(s->fc);
        if (CurrentMemoryContext != s->q->tuple) misuse("%s returned in another memory context than it was called in", FN[s->fn].name);
        rc = PG_ROW;
        if (FN[s->fn].set && s->rsi.isDone == ExprEndResult) rc = PG_DONE;
        else if (FN[s->fn].set && s->rsi.isDone != ExprMultipleResult) { misuse("%s did not say whether more rows follow", FN[s->fn].name); rc = PG_DONE; }
        else if (s->fc->isnull) rc = PG_NULL;
        if (s->rsi.returnMode != SFRM_ValuePerCall) misuse("%s used a return mode that was not allowed", FN[s->fn].name);
    }
    else { rc = PG_ERROR; *err = strdup(err_text); }
    PG_exception_stack = save;
    CurrentMemoryContext = old;
    if (s->q->spi) { if (spi_depth == spi_floor && spi_depth > 0) --spi_depth; spi_floor = floor; }
    if (rc == PG_ROW) capture(s, d, row);
    if (rc != PG_ROW || !FN[s->fn].set) drop_args(s);
    s->active = rc == PG_ROW && FN[s->fn].set;
    MemoryContextReset(s->q->tuple);
    current_site = NULL;
    return rc;
}
int pg_call(PgSite *s, const char *const *arg, const int *packed, PgRow *row, char **err)
{
    int i;
    for (i = 0; i < FN[s->fn].nargs; ++i) if (!arg[i] && !FN[s->fn].notstrict) { row->natts = 0; row->val = NULL; *err = NULL; return FN[s->fn].set ? PG_DONE : PG_NULL; }
    for (i = 0; i < FN[s->fn].nargs; ++i) {
        Size n = arg[i] ? strlen(arg[i]) : 0;
        struct varlena *v;
        if (!arg[i]) { s->fc->args[i].value = 0; s->fc->args[i].isnull = true; continue; }
        if (packed[i] && n + VARHDRSZ_SHORT <= VARATT_SHORT_MAX) {
            v = malloc(n + VARHDRSZ_SHORT); SET_VARSIZE_SHORT(v, n + VARHDRSZ_SHORT); memcpy(VARDATA_SHORT(v), arg[i], n);
            s->arg[i].n = n + VARHDRSZ_SHORT;
        } else {
            v = malloc(n + VARHDRSZ); SET_VARSIZE(v, n + VARHDRSZ); memcpy(VARDATA(v), arg[i], n);
            s->arg[i].n = n + VARHDRSZ;
        }
        s->arg[i].p = v; s->arg[i].copy = malloc(s->arg[i].n); memcpy(s->arg[i].copy, v, s->arg[i].n);
        s->fc->args[i].value = PointerGetDatum(v); s->fc->args[i].isnull = false;
    }
    return invoke(s, row, err);
}
int pg_next(PgSite *s, PgRow *row, char **err) { return invoke(s, row, err); }
/* what the executor does through shutdown_MultiFuncCall */
void pg_abandon(PgSite *s)
{
    if (!s->active) return;
    FuncCallContext *f = s->fi.fn_extra;
    CurrentMemoryContext = MessageContext;
    if (f) { s->fi.fn_extra = NULL; MemoryContextDelete(f->multi_call_memory_ctx); }
    s->active = false;
    drop_args(s);
}
