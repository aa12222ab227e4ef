/* Harness interface of the symbolic executor (lib/symex.py).  Under the executor these functions are intrinsics; in a
 * native build (SV_NATIVE) they replay concrete values: argv[1] holds lines "c <i> <v>" (case parameters) and
 * "<i> <v>" (i-th input).  Exit status: 0 fine, 1 a check failed, 77 an assumption does not hold. */
#ifndef SV_H
#define SV_H
#include <stdint.h>
#include <stddef.h>
extern int sv_case(int i);
extern int sv_bit(void);
extern int sv_int(int lo, int hi);
extern uint32_t sv_uint(void);
extern uint64_t sv_u48(void);
extern float sv_float(float lo, float hi);
extern void sv_assume(int c);
extern void sv_check(int c, const char* msg);
extern void sv_close(double a, double b, double tol, const char* msg);
extern void sv_same(float a, float b, const char* msg);
extern void sv_end(void);
extern void sv_undef(void* p, int n);
extern void sv_thread(void (*f)(void));      /* run f in a new thread and wait for it */
extern void harness(void);

#ifdef SV_NATIVE
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static double* sv_v; static char* sv_has; static int sv_n = 0, sv_next = 0; static long long sv_c[64];
static int sv_failed = 0, sv_trace = 0, sv_ended = 0;
static unsigned long long sv_rng = 88172645463325252ULL;
static unsigned long long sv_r(void){ sv_rng ^= sv_rng << 13; sv_rng ^= sv_rng >> 7; sv_rng ^= sv_rng << 17; return sv_rng; }
static void sv_read(const char* fn){
    FILE* f = fopen(fn, "r"); char line[256];
    if(!f){ fprintf(stderr, "cannot open %s\n", fn); exit(99); }
    sv_v = (double*)calloc(200000, sizeof(double)); sv_has = (char*)calloc(200000, 1);
    while(fgets(line, sizeof line, f)){
        long long i; double v; long long c;
        if(sscanf(line, "c %lld %lld", &i, &c) == 2){ sv_c[i] = c; continue; }
        if(sscanf(line, "seed %lld", &i) == 1){ sv_rng ^= (unsigned long long)i * 0x9E3779B97F4A7C15ULL; for(int k=0;k<8;k++) sv_r(); continue; }
        if(sscanf(line, "%lld %lf", &i, &v) == 2 && i >= 0 && i < 200000){ sv_v[i] = v; sv_has[i] = 1; }
    }
    fclose(f); (void)sv_n;
}
int sv_case(int i){ return (int)sv_c[i]; }
static void sv_out(double v){ if(sv_trace) printf("IN %d %.17g\n", sv_next, v); }
int sv_bit(void){ int i = sv_next; int v = sv_has[i] ? (sv_v[i] != 0) : (int)(sv_r() >> 40 & 1); sv_out(v); sv_next++; return v; }
int sv_int(int lo, int hi){ int i = sv_next; long long v = sv_has[i] ? (long long)sv_v[i] : lo + (long long)(sv_r() % (unsigned long long)((long long)hi - lo + 1));
    if(v < lo) v = lo; if(v > hi) v = hi; sv_out((double)v); sv_next++; return (int)v; }
uint32_t sv_uint(void){ int i = sv_next; uint32_t v = sv_has[i] ? (uint32_t)sv_v[i] : (uint32_t)sv_r(); sv_out(v); sv_next++; return v; }
uint64_t sv_u48(void){ int i = sv_next; uint64_t v = (sv_has[i] ? (uint64_t)sv_v[i] : sv_r()) & 0xffffffffffffULL; sv_out((double)v); sv_next++; return v; }
float sv_float(float lo, float hi){ int i = sv_next; double u = (double)(sv_r() >> 11) / 9007199254740992.0;
    float v = sv_has[i] ? (float)sv_v[i] : (float)(lo + (hi - (double)lo) * u); if(v < lo) v = lo; if(v > hi) v = hi; sv_out(v); sv_next++; return v; }
void sv_assume(int c){ if(!c){ if(!sv_failed) exit(77); exit(1);} }
void sv_check(int c, const char* m){ if(sv_trace) printf("CHECK %d %s\n", c != 0, m); if(!c){ fprintf(stderr, "CHECK FAILED: %s\n", m); sv_failed = 1; } }
void sv_close(double a, double b, double tol, const char* m){
    double mg = fabs(a) > fabs(b) ? fabs(a) : fabs(b);
    if(sv_trace) printf("CLOSE %.9g %.9g %.9g %s\n", a, b, tol, m);
    if(!(fabs(a - b) <= tol + 1e-4 * mg)){ fprintf(stderr, "CHECK FAILED: %s (got %.9g, want %.9g, tolerance %.3g)\n", m, a, b, tol); sv_failed = 1; } }
void sv_same(float a, float b, const char* m){ if(sv_trace) printf("SAME %.9g %.9g %s\n", a, b, m);
    if(!(a == b || (a != a && b != b))){ fprintf(stderr, "CHECK FAILED: %s (%.9g vs %.9g)\n", m, a, b); sv_failed = 1; } }
void sv_end(void){ sv_ended = 1; }
void sv_undef(void* p, int n){ unsigned char* q = (unsigned char*)p; for(int i = 0; i < n; i++) q[i] = (unsigned char)(sv_r() >> 33) & 0x3f; }
#include <pthread.h>
static void* sv_run(void* f){ (*(void (**)(void))f)(); return 0; }
void sv_thread(void (*f)(void)){ pthread_t t; pthread_create(&t, 0, sv_run, &f); pthread_join(t, 0); }
int main(int argc, char** argv){
    if(argc < 2) return 99;
    sv_trace = getenv("SV_TRACE") != NULL;
    sv_read(argv[1]); harness(); fflush(stdout);
    if(sv_failed) return 1;
    return sv_ended ? 0 : 78; }
#endif
#endif
