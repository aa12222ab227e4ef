#ifndef PARMS_H
#define PARMS_H
#include "sv.h"
#include "mbelib-neo/mbelib.h"
/* every field of two parameter blocks */
#define PARMS_SAME(a, b, tag) do { \
    const mbe_parms* A_ = (a); const mbe_parms* B_ = (b); \
    sv_same(A_->w0, B_->w0, tag ": w0"); sv_check(A_->L == B_->L, tag ": L"); sv_check(A_->K == B_->K, tag ": K"); \
    for (int i_ = 0; i_ < 57; i_++) { \
        sv_check(A_->Vl[i_] == B_->Vl[i_], tag ": Vl"); sv_same(A_->Ml[i_], B_->Ml[i_], tag ": Ml"); \
        sv_same(A_->log2Ml[i_], B_->log2Ml[i_], tag ": log2Ml"); sv_same(A_->PHIl[i_], B_->PHIl[i_], tag ": PHIl"); \
        sv_same(A_->PSIl[i_], B_->PSIl[i_], tag ": PSIl"); } \
    PARMS_SAME_REST(A_, B_, tag); \
} while (0)
#define PARMS_SAME_REST(A_, B_, tag) do { \
    sv_same(A_->gamma, B_->gamma, tag ": gamma"); sv_check(A_->un == B_->un, tag ": un"); sv_check(A_->repeat == B_->repeat, tag ": repeat"); \
    sv_check(A_->swn == B_->swn, tag ": swn"); sv_same(A_->localEnergy, B_->localEnergy, tag ": localEnergy"); \
    sv_check(A_->amplitudeThreshold == B_->amplitudeThreshold, tag ": amplitudeThreshold"); sv_same(A_->errorRate, B_->errorRate, tag ": errorRate"); \
    sv_check(A_->errorCountTotal == B_->errorCountTotal, tag ": errorCountTotal"); sv_check(A_->errorCount4 == B_->errorCount4, tag ": errorCount4"); \
    sv_check(A_->repeatCount == B_->repeatCount, tag ": repeatCount"); sv_same(A_->mutingThreshold, B_->mutingThreshold, tag ": mutingThreshold"); \
    for (int i_ = 0; i_ < 256; i_++) sv_same(A_->previousUw[i_], B_->previousUw[i_], tag ": previousUw"); \
    sv_same(A_->noiseSeed, B_->noiseSeed, tag ": noiseSeed"); \
    for (int i_ = 0; i_ < 96; i_++) sv_same(A_->noiseOverlap[i_], B_->noiseOverlap[i_], tag ": noiseOverlap"); \
} while (0)
#endif
