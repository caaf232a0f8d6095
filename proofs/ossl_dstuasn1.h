/* Assumed contracts of the generated ASN.1 template functions (asn1.c, libcrypto) and of ASN1_INTEGER:
 * _new makes the object with its mandatory members, _free releases what hangs off it. */
#ifndef OSSL_DSTUASN1_H
#define OSSL_DSTUASN1_H
#include "asn1.h"
struct asn1_object_st { int nid; };
static ASN1_OBJECT NIDOBJ; static int NNIDOBJ;
ASN1_OBJECT *OBJ_nid2obj(int nid) { /* cannot fail for the two registered algorithms */ NNIDOBJ++; NIDOBJ.nid = nid; return &NIDOBJ; }
int OBJ_obj2nid(const ASN1_OBJECT *o) { CALLPRE(o != NULL, "OBJ_obj2nid: an object"); return o->nid; }
typedef struct { ASN1_STRING s; bv v; int neg; long w; } MINT;
#define AI(x) ((MINT *)(x))
static MINT *mint(void) { MINT *m = malloc(sizeof *m); __CPROVER_assume(m != NULL); LIVE++; m->v = 0; m->neg = 0; m->w = 0; return m; }
ASN1_INTEGER *ASN1_INTEGER_new(void) { LIBFAIL(NULL); return &mint()->s; }
void ASN1_INTEGER_free(ASN1_INTEGER *a) { if (a) { LIVE--; free(a); } }
int ASN1_INTEGER_set(ASN1_INTEGER *a, long v) { CALLPRE(a, "ASN1_INTEGER_set: an integer"); LIBFAIL(0); AI(a)->w = v; return 1; }
long ASN1_INTEGER_get(const ASN1_INTEGER *a) { CALLPRE(a, "ASN1_INTEGER_get: an integer"); return AI(a)->w; }
ASN1_INTEGER *BN_to_ASN1_INTEGER(const BIGNUM *b, ASN1_INTEGER *a) { CALLPRE(a, "model: BN_to_ASN1_INTEGER into an integer"); LIBFAIL(NULL); AI(a)->v = b->v; AI(a)->neg = b->neg; return a; }
BIGNUM *ASN1_INTEGER_to_BN(const ASN1_INTEGER *a, BIGNUM *b) { CALLPRE(a && b, "model: ASN1_INTEGER_to_BN into a number"); LIBFAIL(NULL); b->v = AI(a)->v; b->neg = AI(a)->neg; return b; }
static ASN1_STRING *mstr(void) { ASN1_STRING *s = malloc(sizeof *s); __CPROVER_assume(s != NULL); LIVE++; s->length = 0; s->type = V_ASN1_OCTET_STRING; s->data = NULL; s->flags = 0; return s; }
DSTU_Pentanomial *DSTU_Pentanomial_new(void) { LIBFAIL(NULL); DSTU_Pentanomial *p = malloc(sizeof *p); __CPROVER_assume(p != NULL); LIVE++; p->k = &mint()->s; p->j = &mint()->s; p->l = &mint()->s; return p; }
DSTU_CustomCurveSpec *DSTU_CustomCurveSpec_new(void)
{
    LIBFAIL(NULL); DSTU_CustomCurveSpec *c = malloc(sizeof *c); __CPROVER_assume(c != NULL); LIVE++; c->field = malloc(sizeof *c->field); __CPROVER_assume(c->field != NULL); c->field->m = &mint()->s; c->field->poly = malloc(sizeof *c->field->poly); __CPROVER_assume(c->field->poly != NULL);
    c->field->poly->type = -1; c->field->poly->poly.k = NULL; c->field->poly->poly.pentanomial = NULL; c->a = &mint()->s; c->n = &mint()->s; c->b = mstr(); c->bp = mstr(); return c;
}
static void spec_free(DSTU_CustomCurveSpec *c)
{
    if (!c) return; DSTU_Polynomial *p = c->field->poly;
    if (p->type == DSTU_TRINOMIAL) ASN1_INTEGER_free(p->poly.k); else if (p->type == DSTU_PENTANOMIAL && p->poly.pentanomial) { DSTU_Pentanomial *q = p->poly.pentanomial; ASN1_INTEGER_free(q->k); ASN1_INTEGER_free(q->j); ASN1_INTEGER_free(q->l); LIVE--; free(q); }
    free(p); ASN1_INTEGER_free(c->field->m); free(c->field); ASN1_INTEGER_free(c->a); ASN1_INTEGER_free(c->n); ASN1_STRING_free(c->b); ASN1_STRING_free(c->bp); LIVE--; free(c);
}
void DSTU_CustomCurveSpec_free(DSTU_CustomCurveSpec *c) { spec_free(c); }
DSTU_AlgorithmParameters *DSTU_AlgorithmParameters_new(void)
{ LIBFAIL(NULL); DSTU_AlgorithmParameters *a = malloc(sizeof *a); __CPROVER_assume(a != NULL); LIVE++; a->curve = malloc(sizeof *a->curve); __CPROVER_assume(a->curve != NULL); a->curve->type = -1; a->curve->curve.named_curve = NULL; a->curve->curve.custom_curve = NULL; a->sbox = NULL; return a; }
void DSTU_AlgorithmParameters_free(DSTU_AlgorithmParameters *a)
{ if (!a) return; if (a->curve->type == DSTU_CUSTOM_CURVE) spec_free(a->curve->curve.custom_curve); free(a->curve); ASN1_STRING_free(a->sbox); LIVE--; free(a); }
#endif
