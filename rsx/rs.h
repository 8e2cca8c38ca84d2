/* harness interface, implemented by rsx (symbolically over the reals), CBMC (bit-precise) and rs_native.c (replay) */
#ifndef RS_H
#define RS_H
static int rs_same(double a,double b){ return a==b || (a!=a && b!=b); }
#ifdef RS_CBMC
/* ---- CBMC: nondeterministic values are logged in order so that a trace can be replayed natively ---- */
double nondet_double(void); long nondet_long(void);
static double rs_log_r; static long rs_log_i;
static double rs_real(const char *name){ double v=nondet_double(); rs_log_r=v; return v; }
static double rs_fin(const char *name){ double v=nondet_double(); __CPROVER_assume(v==v && v<1e308 && v>-1e308); rs_log_r=v; return v; }
static double rs_pos(const char *name){ double v=nondet_double(); __CPROVER_assume(v>0 && v<1e308); rs_log_r=v; return v; }
static long rs_int(long lo,long hi,const char *name){ long v=nondet_long(); __CPROVER_assume(v>=lo && v<=hi); rs_log_i=v; return v; }
static void rs_havoc(double *p,long n,const char *nm){ long i; for(i=0;i<n;i++) p[i]=rs_real(nm); }
#define rs_assume(c) __CPROVER_assume(c)
#define rs_assert(c,m) __CPROVER_assert((c),m)
#define rs_assert_same(a,b,m) __CPROVER_assert(rs_same((a),(b)),m)
#define rs_reach(n) __CPROVER_assert(0,"REACH:" n)
static int rs_is_nan(double a){ return a!=a; }
#define rs_assert_eq(a,b,m) __CPROVER_assert(rs_same((a),(b)),m)
static long rs_leaks(void){ return 0; }
static void rs_end(void){ __CPROVER_assume(0); }
#else
double rs_real(const char *name);              /* arbitrary value (rsx: real; CBMC: any double) */
double rs_fin(const char *name);               /* arbitrary finite value */
double rs_pos(const char *name);               /* arbitrary positive finite value */
long   rs_int(long lo, long hi, const char *name); /* arbitrary integer of a range */
void   rs_havoc(double *p, long n, const char *name);
void   rs_assume(int c);
void   rs_assert(int c, const char *msg);
void   rs_assert_eq(double a, double b, const char *msg);   /* exact in the engines, with tolerance in replay */
void   rs_assert_same(double a, double b, const char *msg); /* exact everywhere, NaN equal to NaN */
int    rs_is_nan(double a);
void   rs_reach(const char *name);             /* reachability witness */
void   rs_end(void);
long   rs_leaks(void);                         /* live heap blocks */
int    rs_depends_uninit(double a);
int    rs_symbolic(double a);
long   rs_try_size(const void *p);
double rs_uf1(const char *name, double a);
double rs_diff(double f, double v);
#endif
#endif
