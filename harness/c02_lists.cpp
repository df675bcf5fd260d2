// C02: lists of members or sizes of every supported length (generated by tools/gen_lists.py)
#include "cells.hpp"

#define PUT(INDEX, ARG, ELEMENT) got[n] = ELEMENT; at[n] = INDEX; arg[n] = ARG; ++n;

#define L1 (v[0])
#define L2 (v[0])(v[1])
#define L3 (v[0])(v[1])(v[2])
#define L4 (v[0])(v[1])(v[2])(v[3])
#define L5 (v[0])(v[1])(v[2])(v[3])(v[4])
#define L6 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])
#define L7 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])
#define L8 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])
#define L9 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])
#define L10 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])
#define L11 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])
#define L12 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])
#define L13 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])
#define L14 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])
#define L15 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])
#define L16 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])
#define L17 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])
#define L18 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])
#define L19 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])
#define L20 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])
#define L21 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])
#define L22 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])
#define L23 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])
#define L24 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])
#define L25 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])
#define L26 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])
#define L27 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])
#define L28 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])(v[27])
#define L29 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])(v[27])(v[28])
#define L30 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])(v[27])(v[28])(v[29])
#define L31 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])(v[27])(v[28])(v[29])(v[30])
#define L32 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])(v[27])(v[28])(v[29])(v[30])(v[31])
#define L33 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])(v[27])(v[28])(v[29])(v[30])(v[31])(v[32])
#define L34 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])(v[27])(v[28])(v[29])(v[30])(v[31])(v[32])(v[33])
#define L35 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])(v[27])(v[28])(v[29])(v[30])(v[31])(v[32])(v[33])(v[34])
#define L36 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])(v[27])(v[28])(v[29])(v[30])(v[31])(v[32])(v[33])(v[34])(v[35])
#define L37 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])(v[27])(v[28])(v[29])(v[30])(v[31])(v[32])(v[33])(v[34])(v[35])(v[36])
#define L38 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])(v[27])(v[28])(v[29])(v[30])(v[31])(v[32])(v[33])(v[34])(v[35])(v[36])(v[37])
#define L39 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])(v[27])(v[28])(v[29])(v[30])(v[31])(v[32])(v[33])(v[34])(v[35])(v[36])(v[37])(v[38])
#define L40 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])(v[27])(v[28])(v[29])(v[30])(v[31])(v[32])(v[33])(v[34])(v[35])(v[36])(v[37])(v[38])(v[39])
#define L41 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])(v[27])(v[28])(v[29])(v[30])(v[31])(v[32])(v[33])(v[34])(v[35])(v[36])(v[37])(v[38])(v[39])(v[40])
#define L42 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])(v[27])(v[28])(v[29])(v[30])(v[31])(v[32])(v[33])(v[34])(v[35])(v[36])(v[37])(v[38])(v[39])(v[40])(v[41])
#define L43 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])(v[27])(v[28])(v[29])(v[30])(v[31])(v[32])(v[33])(v[34])(v[35])(v[36])(v[37])(v[38])(v[39])(v[40])(v[41])(v[42])
#define L44 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])(v[27])(v[28])(v[29])(v[30])(v[31])(v[32])(v[33])(v[34])(v[35])(v[36])(v[37])(v[38])(v[39])(v[40])(v[41])(v[42])(v[43])
#define L45 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])(v[27])(v[28])(v[29])(v[30])(v[31])(v[32])(v[33])(v[34])(v[35])(v[36])(v[37])(v[38])(v[39])(v[40])(v[41])(v[42])(v[43])(v[44])
#define L46 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])(v[27])(v[28])(v[29])(v[30])(v[31])(v[32])(v[33])(v[34])(v[35])(v[36])(v[37])(v[38])(v[39])(v[40])(v[41])(v[42])(v[43])(v[44])(v[45])
#define L47 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])(v[27])(v[28])(v[29])(v[30])(v[31])(v[32])(v[33])(v[34])(v[35])(v[36])(v[37])(v[38])(v[39])(v[40])(v[41])(v[42])(v[43])(v[44])(v[45])(v[46])
#define L48 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])(v[27])(v[28])(v[29])(v[30])(v[31])(v[32])(v[33])(v[34])(v[35])(v[36])(v[37])(v[38])(v[39])(v[40])(v[41])(v[42])(v[43])(v[44])(v[45])(v[46])(v[47])
#define L49 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])(v[27])(v[28])(v[29])(v[30])(v[31])(v[32])(v[33])(v[34])(v[35])(v[36])(v[37])(v[38])(v[39])(v[40])(v[41])(v[42])(v[43])(v[44])(v[45])(v[46])(v[47])(v[48])
#define L50 (v[0])(v[1])(v[2])(v[3])(v[4])(v[5])(v[6])(v[7])(v[8])(v[9])(v[10])(v[11])(v[12])(v[13])(v[14])(v[15])(v[16])(v[17])(v[18])(v[19])(v[20])(v[21])(v[22])(v[23])(v[24])(v[25])(v[26])(v[27])(v[28])(v[29])(v[30])(v[31])(v[32])(v[33])(v[34])(v[35])(v[36])(v[37])(v[38])(v[39])(v[40])(v[41])(v[42])(v[43])(v[44])(v[45])(v[46])(v[47])(v[48])(v[49])

static long v[52], got[52], at[52], arg[52];

static void start()
{
    for (int i = 0; i < 50; ++i) {
        v[i] = vf_any<long>("v");
    }
}
static void visited(int n, int len, long a)
{
    vf_check(n == len, "every element is visited once");
    for (int i = 0; i < len; ++i) {
        vf_check(got[i] == v[i] && at[i] == i && arg[i] == a, "elements are visited in order");
    }
}

VF_ENTRY(list_for_each)
{
    start();
    long a = vf_any<long>("a");
    int n;
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L1) visited(n, 1, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L2) visited(n, 2, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L3) visited(n, 3, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L4) visited(n, 4, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L5) visited(n, 5, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L6) visited(n, 6, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L7) visited(n, 7, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L8) visited(n, 8, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L9) visited(n, 9, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L10) visited(n, 10, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L11) visited(n, 11, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L12) visited(n, 12, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L13) visited(n, 13, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L14) visited(n, 14, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L15) visited(n, 15, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L16) visited(n, 16, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L17) visited(n, 17, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L18) visited(n, 18, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L19) visited(n, 19, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L20) visited(n, 20, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L21) visited(n, 21, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L22) visited(n, 22, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L23) visited(n, 23, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L24) visited(n, 24, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L25) visited(n, 25, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L26) visited(n, 26, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L27) visited(n, 27, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L28) visited(n, 28, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L29) visited(n, 29, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L30) visited(n, 30, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L31) visited(n, 31, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L32) visited(n, 32, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L33) visited(n, 33, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L34) visited(n, 34, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L35) visited(n, 35, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L36) visited(n, 36, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L37) visited(n, 37, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L38) visited(n, 38, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L39) visited(n, 39, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L40) visited(n, 40, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L41) visited(n, 41, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L42) visited(n, 42, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L43) visited(n, 43, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L44) visited(n, 44, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L45) visited(n, 45, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L46) visited(n, 46, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L47) visited(n, 47, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L48) visited(n, 48, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L49) visited(n, 49, a);
    n = 0; LIBFLATARRAY_FOR_EACH(PUT, a, L50) visited(n, 50, a);
    vf_reach("done");
}

VF_ENTRY(list_size)
{
    vf_check(LIBFLATARRAY_SIZE(L1) == 1, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L2) == 2, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L3) == 3, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L4) == 4, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L5) == 5, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L6) == 6, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L7) == 7, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L8) == 8, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L9) == 9, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L10) == 10, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L11) == 11, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L12) == 12, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L13) == 13, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L14) == 14, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L15) == 15, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L16) == 16, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L17) == 17, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L18) == 18, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L19) == 19, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L20) == 20, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L21) == 21, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L22) == 22, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L23) == 23, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L24) == 24, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L25) == 25, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L26) == 26, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L27) == 27, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L28) == 28, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L29) == 29, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L30) == 30, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L31) == 31, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L32) == 32, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L33) == 33, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L34) == 34, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L35) == 35, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L36) == 36, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L37) == 37, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L38) == 38, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L39) == 39, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L40) == 40, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L41) == 41, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L42) == 42, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L43) == 43, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L44) == 44, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L45) == 45, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L46) == 46, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L47) == 47, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L48) == 48, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L49) == 49, "length of a list");
    vf_check(LIBFLATARRAY_SIZE(L50) == 50, "length of a list");
    vf_reach("done");
}

VF_ENTRY(list_elem)
{
    start();
    vf_check(LIBFLATARRAY_ELEM(0, L1) == v[0], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L2) == v[0] && LIBFLATARRAY_ELEM(1, L2) == v[1], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L3) == v[0] && LIBFLATARRAY_ELEM(1, L3) == v[1] && LIBFLATARRAY_ELEM(2, L3) == v[2], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L4) == v[0] && LIBFLATARRAY_ELEM(1, L4) == v[1] && LIBFLATARRAY_ELEM(2, L4) == v[2] && LIBFLATARRAY_ELEM(3, L4) == v[3], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L5) == v[0] && LIBFLATARRAY_ELEM(1, L5) == v[1] && LIBFLATARRAY_ELEM(2, L5) == v[2] && LIBFLATARRAY_ELEM(3, L5) == v[3] && LIBFLATARRAY_ELEM(4, L5) == v[4], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L6) == v[0] && LIBFLATARRAY_ELEM(1, L6) == v[1] && LIBFLATARRAY_ELEM(2, L6) == v[2] && LIBFLATARRAY_ELEM(3, L6) == v[3] && LIBFLATARRAY_ELEM(4, L6) == v[4] && LIBFLATARRAY_ELEM(5, L6) == v[5], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L7) == v[0] && LIBFLATARRAY_ELEM(1, L7) == v[1] && LIBFLATARRAY_ELEM(2, L7) == v[2] && LIBFLATARRAY_ELEM(3, L7) == v[3] && LIBFLATARRAY_ELEM(4, L7) == v[4] && LIBFLATARRAY_ELEM(5, L7) == v[5] && LIBFLATARRAY_ELEM(6, L7) == v[6], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L8) == v[0] && LIBFLATARRAY_ELEM(1, L8) == v[1] && LIBFLATARRAY_ELEM(2, L8) == v[2] && LIBFLATARRAY_ELEM(3, L8) == v[3] && LIBFLATARRAY_ELEM(4, L8) == v[4] && LIBFLATARRAY_ELEM(5, L8) == v[5] && LIBFLATARRAY_ELEM(6, L8) == v[6] && LIBFLATARRAY_ELEM(7, L8) == v[7], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L9) == v[0] && LIBFLATARRAY_ELEM(1, L9) == v[1] && LIBFLATARRAY_ELEM(2, L9) == v[2] && LIBFLATARRAY_ELEM(3, L9) == v[3] && LIBFLATARRAY_ELEM(4, L9) == v[4] && LIBFLATARRAY_ELEM(5, L9) == v[5] && LIBFLATARRAY_ELEM(6, L9) == v[6] && LIBFLATARRAY_ELEM(7, L9) == v[7] && LIBFLATARRAY_ELEM(8, L9) == v[8], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L10) == v[0] && LIBFLATARRAY_ELEM(1, L10) == v[1] && LIBFLATARRAY_ELEM(2, L10) == v[2] && LIBFLATARRAY_ELEM(3, L10) == v[3] && LIBFLATARRAY_ELEM(4, L10) == v[4] && LIBFLATARRAY_ELEM(5, L10) == v[5] && LIBFLATARRAY_ELEM(6, L10) == v[6] && LIBFLATARRAY_ELEM(7, L10) == v[7] && LIBFLATARRAY_ELEM(8, L10) == v[8] && LIBFLATARRAY_ELEM(9, L10) == v[9], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L11) == v[0] && LIBFLATARRAY_ELEM(1, L11) == v[1] && LIBFLATARRAY_ELEM(2, L11) == v[2] && LIBFLATARRAY_ELEM(3, L11) == v[3] && LIBFLATARRAY_ELEM(4, L11) == v[4] && LIBFLATARRAY_ELEM(5, L11) == v[5] && LIBFLATARRAY_ELEM(6, L11) == v[6] && LIBFLATARRAY_ELEM(7, L11) == v[7] && LIBFLATARRAY_ELEM(8, L11) == v[8] && LIBFLATARRAY_ELEM(9, L11) == v[9] && LIBFLATARRAY_ELEM(10, L11) == v[10], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L12) == v[0] && LIBFLATARRAY_ELEM(1, L12) == v[1] && LIBFLATARRAY_ELEM(2, L12) == v[2] && LIBFLATARRAY_ELEM(3, L12) == v[3] && LIBFLATARRAY_ELEM(4, L12) == v[4] && LIBFLATARRAY_ELEM(5, L12) == v[5] && LIBFLATARRAY_ELEM(6, L12) == v[6] && LIBFLATARRAY_ELEM(7, L12) == v[7] && LIBFLATARRAY_ELEM(8, L12) == v[8] && LIBFLATARRAY_ELEM(9, L12) == v[9] && LIBFLATARRAY_ELEM(10, L12) == v[10] && LIBFLATARRAY_ELEM(11, L12) == v[11], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L13) == v[0] && LIBFLATARRAY_ELEM(1, L13) == v[1] && LIBFLATARRAY_ELEM(2, L13) == v[2] && LIBFLATARRAY_ELEM(3, L13) == v[3] && LIBFLATARRAY_ELEM(4, L13) == v[4] && LIBFLATARRAY_ELEM(5, L13) == v[5] && LIBFLATARRAY_ELEM(6, L13) == v[6] && LIBFLATARRAY_ELEM(7, L13) == v[7] && LIBFLATARRAY_ELEM(8, L13) == v[8] && LIBFLATARRAY_ELEM(9, L13) == v[9] && LIBFLATARRAY_ELEM(10, L13) == v[10] && LIBFLATARRAY_ELEM(11, L13) == v[11] && LIBFLATARRAY_ELEM(12, L13) == v[12], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L14) == v[0] && LIBFLATARRAY_ELEM(1, L14) == v[1] && LIBFLATARRAY_ELEM(2, L14) == v[2] && LIBFLATARRAY_ELEM(3, L14) == v[3] && LIBFLATARRAY_ELEM(4, L14) == v[4] && LIBFLATARRAY_ELEM(5, L14) == v[5] && LIBFLATARRAY_ELEM(6, L14) == v[6] && LIBFLATARRAY_ELEM(7, L14) == v[7] && LIBFLATARRAY_ELEM(8, L14) == v[8] && LIBFLATARRAY_ELEM(9, L14) == v[9] && LIBFLATARRAY_ELEM(10, L14) == v[10] && LIBFLATARRAY_ELEM(11, L14) == v[11] && LIBFLATARRAY_ELEM(12, L14) == v[12] && LIBFLATARRAY_ELEM(13, L14) == v[13], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L15) == v[0] && LIBFLATARRAY_ELEM(1, L15) == v[1] && LIBFLATARRAY_ELEM(2, L15) == v[2] && LIBFLATARRAY_ELEM(3, L15) == v[3] && LIBFLATARRAY_ELEM(4, L15) == v[4] && LIBFLATARRAY_ELEM(5, L15) == v[5] && LIBFLATARRAY_ELEM(6, L15) == v[6] && LIBFLATARRAY_ELEM(7, L15) == v[7] && LIBFLATARRAY_ELEM(8, L15) == v[8] && LIBFLATARRAY_ELEM(9, L15) == v[9] && LIBFLATARRAY_ELEM(10, L15) == v[10] && LIBFLATARRAY_ELEM(11, L15) == v[11] && LIBFLATARRAY_ELEM(12, L15) == v[12] && LIBFLATARRAY_ELEM(13, L15) == v[13] && LIBFLATARRAY_ELEM(14, L15) == v[14], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L16) == v[0] && LIBFLATARRAY_ELEM(1, L16) == v[1] && LIBFLATARRAY_ELEM(2, L16) == v[2] && LIBFLATARRAY_ELEM(3, L16) == v[3] && LIBFLATARRAY_ELEM(4, L16) == v[4] && LIBFLATARRAY_ELEM(5, L16) == v[5] && LIBFLATARRAY_ELEM(6, L16) == v[6] && LIBFLATARRAY_ELEM(7, L16) == v[7] && LIBFLATARRAY_ELEM(8, L16) == v[8] && LIBFLATARRAY_ELEM(9, L16) == v[9] && LIBFLATARRAY_ELEM(10, L16) == v[10] && LIBFLATARRAY_ELEM(11, L16) == v[11] && LIBFLATARRAY_ELEM(12, L16) == v[12] && LIBFLATARRAY_ELEM(13, L16) == v[13] && LIBFLATARRAY_ELEM(14, L16) == v[14] && LIBFLATARRAY_ELEM(15, L16) == v[15], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L17) == v[0] && LIBFLATARRAY_ELEM(1, L17) == v[1] && LIBFLATARRAY_ELEM(2, L17) == v[2] && LIBFLATARRAY_ELEM(3, L17) == v[3] && LIBFLATARRAY_ELEM(4, L17) == v[4] && LIBFLATARRAY_ELEM(5, L17) == v[5] && LIBFLATARRAY_ELEM(6, L17) == v[6] && LIBFLATARRAY_ELEM(7, L17) == v[7] && LIBFLATARRAY_ELEM(8, L17) == v[8] && LIBFLATARRAY_ELEM(9, L17) == v[9] && LIBFLATARRAY_ELEM(10, L17) == v[10] && LIBFLATARRAY_ELEM(11, L17) == v[11] && LIBFLATARRAY_ELEM(12, L17) == v[12] && LIBFLATARRAY_ELEM(13, L17) == v[13] && LIBFLATARRAY_ELEM(14, L17) == v[14] && LIBFLATARRAY_ELEM(15, L17) == v[15] && LIBFLATARRAY_ELEM(16, L17) == v[16], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L18) == v[0] && LIBFLATARRAY_ELEM(1, L18) == v[1] && LIBFLATARRAY_ELEM(2, L18) == v[2] && LIBFLATARRAY_ELEM(3, L18) == v[3] && LIBFLATARRAY_ELEM(4, L18) == v[4] && LIBFLATARRAY_ELEM(5, L18) == v[5] && LIBFLATARRAY_ELEM(6, L18) == v[6] && LIBFLATARRAY_ELEM(7, L18) == v[7] && LIBFLATARRAY_ELEM(8, L18) == v[8] && LIBFLATARRAY_ELEM(9, L18) == v[9] && LIBFLATARRAY_ELEM(10, L18) == v[10] && LIBFLATARRAY_ELEM(11, L18) == v[11] && LIBFLATARRAY_ELEM(12, L18) == v[12] && LIBFLATARRAY_ELEM(13, L18) == v[13] && LIBFLATARRAY_ELEM(14, L18) == v[14] && LIBFLATARRAY_ELEM(15, L18) == v[15] && LIBFLATARRAY_ELEM(16, L18) == v[16] && LIBFLATARRAY_ELEM(17, L18) == v[17], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L19) == v[0] && LIBFLATARRAY_ELEM(1, L19) == v[1] && LIBFLATARRAY_ELEM(2, L19) == v[2] && LIBFLATARRAY_ELEM(3, L19) == v[3] && LIBFLATARRAY_ELEM(4, L19) == v[4] && LIBFLATARRAY_ELEM(5, L19) == v[5] && LIBFLATARRAY_ELEM(6, L19) == v[6] && LIBFLATARRAY_ELEM(7, L19) == v[7] && LIBFLATARRAY_ELEM(8, L19) == v[8] && LIBFLATARRAY_ELEM(9, L19) == v[9] && LIBFLATARRAY_ELEM(10, L19) == v[10] && LIBFLATARRAY_ELEM(11, L19) == v[11] && LIBFLATARRAY_ELEM(12, L19) == v[12] && LIBFLATARRAY_ELEM(13, L19) == v[13] && LIBFLATARRAY_ELEM(14, L19) == v[14] && LIBFLATARRAY_ELEM(15, L19) == v[15] && LIBFLATARRAY_ELEM(16, L19) == v[16] && LIBFLATARRAY_ELEM(17, L19) == v[17] && LIBFLATARRAY_ELEM(18, L19) == v[18], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L20) == v[0] && LIBFLATARRAY_ELEM(1, L20) == v[1] && LIBFLATARRAY_ELEM(2, L20) == v[2] && LIBFLATARRAY_ELEM(3, L20) == v[3] && LIBFLATARRAY_ELEM(4, L20) == v[4] && LIBFLATARRAY_ELEM(5, L20) == v[5] && LIBFLATARRAY_ELEM(6, L20) == v[6] && LIBFLATARRAY_ELEM(7, L20) == v[7] && LIBFLATARRAY_ELEM(8, L20) == v[8] && LIBFLATARRAY_ELEM(9, L20) == v[9] && LIBFLATARRAY_ELEM(10, L20) == v[10] && LIBFLATARRAY_ELEM(11, L20) == v[11] && LIBFLATARRAY_ELEM(12, L20) == v[12] && LIBFLATARRAY_ELEM(13, L20) == v[13] && LIBFLATARRAY_ELEM(14, L20) == v[14] && LIBFLATARRAY_ELEM(15, L20) == v[15] && LIBFLATARRAY_ELEM(16, L20) == v[16] && LIBFLATARRAY_ELEM(17, L20) == v[17] && LIBFLATARRAY_ELEM(18, L20) == v[18] && LIBFLATARRAY_ELEM(19, L20) == v[19], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L21) == v[0] && LIBFLATARRAY_ELEM(1, L21) == v[1] && LIBFLATARRAY_ELEM(2, L21) == v[2] && LIBFLATARRAY_ELEM(3, L21) == v[3] && LIBFLATARRAY_ELEM(4, L21) == v[4] && LIBFLATARRAY_ELEM(5, L21) == v[5] && LIBFLATARRAY_ELEM(6, L21) == v[6] && LIBFLATARRAY_ELEM(7, L21) == v[7] && LIBFLATARRAY_ELEM(8, L21) == v[8] && LIBFLATARRAY_ELEM(9, L21) == v[9] && LIBFLATARRAY_ELEM(10, L21) == v[10] && LIBFLATARRAY_ELEM(11, L21) == v[11] && LIBFLATARRAY_ELEM(12, L21) == v[12] && LIBFLATARRAY_ELEM(13, L21) == v[13] && LIBFLATARRAY_ELEM(14, L21) == v[14] && LIBFLATARRAY_ELEM(15, L21) == v[15] && LIBFLATARRAY_ELEM(16, L21) == v[16] && LIBFLATARRAY_ELEM(17, L21) == v[17] && LIBFLATARRAY_ELEM(18, L21) == v[18] && LIBFLATARRAY_ELEM(19, L21) == v[19] && LIBFLATARRAY_ELEM(20, L21) == v[20], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L22) == v[0] && LIBFLATARRAY_ELEM(1, L22) == v[1] && LIBFLATARRAY_ELEM(2, L22) == v[2] && LIBFLATARRAY_ELEM(3, L22) == v[3] && LIBFLATARRAY_ELEM(4, L22) == v[4] && LIBFLATARRAY_ELEM(5, L22) == v[5] && LIBFLATARRAY_ELEM(6, L22) == v[6] && LIBFLATARRAY_ELEM(7, L22) == v[7] && LIBFLATARRAY_ELEM(8, L22) == v[8] && LIBFLATARRAY_ELEM(9, L22) == v[9] && LIBFLATARRAY_ELEM(10, L22) == v[10] && LIBFLATARRAY_ELEM(11, L22) == v[11] && LIBFLATARRAY_ELEM(12, L22) == v[12] && LIBFLATARRAY_ELEM(13, L22) == v[13] && LIBFLATARRAY_ELEM(14, L22) == v[14] && LIBFLATARRAY_ELEM(15, L22) == v[15] && LIBFLATARRAY_ELEM(16, L22) == v[16] && LIBFLATARRAY_ELEM(17, L22) == v[17] && LIBFLATARRAY_ELEM(18, L22) == v[18] && LIBFLATARRAY_ELEM(19, L22) == v[19] && LIBFLATARRAY_ELEM(20, L22) == v[20] && LIBFLATARRAY_ELEM(21, L22) == v[21], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L23) == v[0] && LIBFLATARRAY_ELEM(1, L23) == v[1] && LIBFLATARRAY_ELEM(2, L23) == v[2] && LIBFLATARRAY_ELEM(3, L23) == v[3] && LIBFLATARRAY_ELEM(4, L23) == v[4] && LIBFLATARRAY_ELEM(5, L23) == v[5] && LIBFLATARRAY_ELEM(6, L23) == v[6] && LIBFLATARRAY_ELEM(7, L23) == v[7] && LIBFLATARRAY_ELEM(8, L23) == v[8] && LIBFLATARRAY_ELEM(9, L23) == v[9] && LIBFLATARRAY_ELEM(10, L23) == v[10] && LIBFLATARRAY_ELEM(11, L23) == v[11] && LIBFLATARRAY_ELEM(12, L23) == v[12] && LIBFLATARRAY_ELEM(13, L23) == v[13] && LIBFLATARRAY_ELEM(14, L23) == v[14] && LIBFLATARRAY_ELEM(15, L23) == v[15] && LIBFLATARRAY_ELEM(16, L23) == v[16] && LIBFLATARRAY_ELEM(17, L23) == v[17] && LIBFLATARRAY_ELEM(18, L23) == v[18] && LIBFLATARRAY_ELEM(19, L23) == v[19] && LIBFLATARRAY_ELEM(20, L23) == v[20] && LIBFLATARRAY_ELEM(21, L23) == v[21] && LIBFLATARRAY_ELEM(22, L23) == v[22], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L24) == v[0] && LIBFLATARRAY_ELEM(1, L24) == v[1] && LIBFLATARRAY_ELEM(2, L24) == v[2] && LIBFLATARRAY_ELEM(3, L24) == v[3] && LIBFLATARRAY_ELEM(4, L24) == v[4] && LIBFLATARRAY_ELEM(5, L24) == v[5] && LIBFLATARRAY_ELEM(6, L24) == v[6] && LIBFLATARRAY_ELEM(7, L24) == v[7] && LIBFLATARRAY_ELEM(8, L24) == v[8] && LIBFLATARRAY_ELEM(9, L24) == v[9] && LIBFLATARRAY_ELEM(10, L24) == v[10] && LIBFLATARRAY_ELEM(11, L24) == v[11] && LIBFLATARRAY_ELEM(12, L24) == v[12] && LIBFLATARRAY_ELEM(13, L24) == v[13] && LIBFLATARRAY_ELEM(14, L24) == v[14] && LIBFLATARRAY_ELEM(15, L24) == v[15] && LIBFLATARRAY_ELEM(16, L24) == v[16] && LIBFLATARRAY_ELEM(17, L24) == v[17] && LIBFLATARRAY_ELEM(18, L24) == v[18] && LIBFLATARRAY_ELEM(19, L24) == v[19] && LIBFLATARRAY_ELEM(20, L24) == v[20] && LIBFLATARRAY_ELEM(21, L24) == v[21] && LIBFLATARRAY_ELEM(22, L24) == v[22] && LIBFLATARRAY_ELEM(23, L24) == v[23], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L25) == v[0] && LIBFLATARRAY_ELEM(1, L25) == v[1] && LIBFLATARRAY_ELEM(2, L25) == v[2] && LIBFLATARRAY_ELEM(3, L25) == v[3] && LIBFLATARRAY_ELEM(4, L25) == v[4] && LIBFLATARRAY_ELEM(5, L25) == v[5] && LIBFLATARRAY_ELEM(6, L25) == v[6] && LIBFLATARRAY_ELEM(7, L25) == v[7] && LIBFLATARRAY_ELEM(8, L25) == v[8] && LIBFLATARRAY_ELEM(9, L25) == v[9] && LIBFLATARRAY_ELEM(10, L25) == v[10] && LIBFLATARRAY_ELEM(11, L25) == v[11] && LIBFLATARRAY_ELEM(12, L25) == v[12] && LIBFLATARRAY_ELEM(13, L25) == v[13] && LIBFLATARRAY_ELEM(14, L25) == v[14] && LIBFLATARRAY_ELEM(15, L25) == v[15] && LIBFLATARRAY_ELEM(16, L25) == v[16] && LIBFLATARRAY_ELEM(17, L25) == v[17] && LIBFLATARRAY_ELEM(18, L25) == v[18] && LIBFLATARRAY_ELEM(19, L25) == v[19] && LIBFLATARRAY_ELEM(20, L25) == v[20] && LIBFLATARRAY_ELEM(21, L25) == v[21] && LIBFLATARRAY_ELEM(22, L25) == v[22] && LIBFLATARRAY_ELEM(23, L25) == v[23] && LIBFLATARRAY_ELEM(24, L25) == v[24], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L26) == v[0] && LIBFLATARRAY_ELEM(1, L26) == v[1] && LIBFLATARRAY_ELEM(2, L26) == v[2] && LIBFLATARRAY_ELEM(3, L26) == v[3] && LIBFLATARRAY_ELEM(4, L26) == v[4] && LIBFLATARRAY_ELEM(5, L26) == v[5] && LIBFLATARRAY_ELEM(6, L26) == v[6] && LIBFLATARRAY_ELEM(7, L26) == v[7] && LIBFLATARRAY_ELEM(8, L26) == v[8] && LIBFLATARRAY_ELEM(9, L26) == v[9] && LIBFLATARRAY_ELEM(10, L26) == v[10] && LIBFLATARRAY_ELEM(11, L26) == v[11] && LIBFLATARRAY_ELEM(12, L26) == v[12] && LIBFLATARRAY_ELEM(13, L26) == v[13] && LIBFLATARRAY_ELEM(14, L26) == v[14] && LIBFLATARRAY_ELEM(15, L26) == v[15] && LIBFLATARRAY_ELEM(16, L26) == v[16] && LIBFLATARRAY_ELEM(17, L26) == v[17] && LIBFLATARRAY_ELEM(18, L26) == v[18] && LIBFLATARRAY_ELEM(19, L26) == v[19] && LIBFLATARRAY_ELEM(20, L26) == v[20] && LIBFLATARRAY_ELEM(21, L26) == v[21] && LIBFLATARRAY_ELEM(22, L26) == v[22] && LIBFLATARRAY_ELEM(23, L26) == v[23] && LIBFLATARRAY_ELEM(24, L26) == v[24] && LIBFLATARRAY_ELEM(25, L26) == v[25], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L27) == v[0] && LIBFLATARRAY_ELEM(1, L27) == v[1] && LIBFLATARRAY_ELEM(2, L27) == v[2] && LIBFLATARRAY_ELEM(3, L27) == v[3] && LIBFLATARRAY_ELEM(4, L27) == v[4] && LIBFLATARRAY_ELEM(5, L27) == v[5] && LIBFLATARRAY_ELEM(6, L27) == v[6] && LIBFLATARRAY_ELEM(7, L27) == v[7] && LIBFLATARRAY_ELEM(8, L27) == v[8] && LIBFLATARRAY_ELEM(9, L27) == v[9] && LIBFLATARRAY_ELEM(10, L27) == v[10] && LIBFLATARRAY_ELEM(11, L27) == v[11] && LIBFLATARRAY_ELEM(12, L27) == v[12] && LIBFLATARRAY_ELEM(13, L27) == v[13] && LIBFLATARRAY_ELEM(14, L27) == v[14] && LIBFLATARRAY_ELEM(15, L27) == v[15] && LIBFLATARRAY_ELEM(16, L27) == v[16] && LIBFLATARRAY_ELEM(17, L27) == v[17] && LIBFLATARRAY_ELEM(18, L27) == v[18] && LIBFLATARRAY_ELEM(19, L27) == v[19] && LIBFLATARRAY_ELEM(20, L27) == v[20] && LIBFLATARRAY_ELEM(21, L27) == v[21] && LIBFLATARRAY_ELEM(22, L27) == v[22] && LIBFLATARRAY_ELEM(23, L27) == v[23] && LIBFLATARRAY_ELEM(24, L27) == v[24] && LIBFLATARRAY_ELEM(25, L27) == v[25] && LIBFLATARRAY_ELEM(26, L27) == v[26], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L28) == v[0] && LIBFLATARRAY_ELEM(1, L28) == v[1] && LIBFLATARRAY_ELEM(2, L28) == v[2] && LIBFLATARRAY_ELEM(3, L28) == v[3] && LIBFLATARRAY_ELEM(4, L28) == v[4] && LIBFLATARRAY_ELEM(5, L28) == v[5] && LIBFLATARRAY_ELEM(6, L28) == v[6] && LIBFLATARRAY_ELEM(7, L28) == v[7] && LIBFLATARRAY_ELEM(8, L28) == v[8] && LIBFLATARRAY_ELEM(9, L28) == v[9] && LIBFLATARRAY_ELEM(10, L28) == v[10] && LIBFLATARRAY_ELEM(11, L28) == v[11] && LIBFLATARRAY_ELEM(12, L28) == v[12] && LIBFLATARRAY_ELEM(13, L28) == v[13] && LIBFLATARRAY_ELEM(14, L28) == v[14] && LIBFLATARRAY_ELEM(15, L28) == v[15] && LIBFLATARRAY_ELEM(16, L28) == v[16] && LIBFLATARRAY_ELEM(17, L28) == v[17] && LIBFLATARRAY_ELEM(18, L28) == v[18] && LIBFLATARRAY_ELEM(19, L28) == v[19] && LIBFLATARRAY_ELEM(20, L28) == v[20] && LIBFLATARRAY_ELEM(21, L28) == v[21] && LIBFLATARRAY_ELEM(22, L28) == v[22] && LIBFLATARRAY_ELEM(23, L28) == v[23] && LIBFLATARRAY_ELEM(24, L28) == v[24] && LIBFLATARRAY_ELEM(25, L28) == v[25] && LIBFLATARRAY_ELEM(26, L28) == v[26] && LIBFLATARRAY_ELEM(27, L28) == v[27], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L29) == v[0] && LIBFLATARRAY_ELEM(1, L29) == v[1] && LIBFLATARRAY_ELEM(2, L29) == v[2] && LIBFLATARRAY_ELEM(3, L29) == v[3] && LIBFLATARRAY_ELEM(4, L29) == v[4] && LIBFLATARRAY_ELEM(5, L29) == v[5] && LIBFLATARRAY_ELEM(6, L29) == v[6] && LIBFLATARRAY_ELEM(7, L29) == v[7] && LIBFLATARRAY_ELEM(8, L29) == v[8] && LIBFLATARRAY_ELEM(9, L29) == v[9] && LIBFLATARRAY_ELEM(10, L29) == v[10] && LIBFLATARRAY_ELEM(11, L29) == v[11] && LIBFLATARRAY_ELEM(12, L29) == v[12] && LIBFLATARRAY_ELEM(13, L29) == v[13] && LIBFLATARRAY_ELEM(14, L29) == v[14] && LIBFLATARRAY_ELEM(15, L29) == v[15] && LIBFLATARRAY_ELEM(16, L29) == v[16] && LIBFLATARRAY_ELEM(17, L29) == v[17] && LIBFLATARRAY_ELEM(18, L29) == v[18] && LIBFLATARRAY_ELEM(19, L29) == v[19] && LIBFLATARRAY_ELEM(20, L29) == v[20] && LIBFLATARRAY_ELEM(21, L29) == v[21] && LIBFLATARRAY_ELEM(22, L29) == v[22] && LIBFLATARRAY_ELEM(23, L29) == v[23] && LIBFLATARRAY_ELEM(24, L29) == v[24] && LIBFLATARRAY_ELEM(25, L29) == v[25] && LIBFLATARRAY_ELEM(26, L29) == v[26] && LIBFLATARRAY_ELEM(27, L29) == v[27] && LIBFLATARRAY_ELEM(28, L29) == v[28], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L30) == v[0] && LIBFLATARRAY_ELEM(1, L30) == v[1] && LIBFLATARRAY_ELEM(2, L30) == v[2] && LIBFLATARRAY_ELEM(3, L30) == v[3] && LIBFLATARRAY_ELEM(4, L30) == v[4] && LIBFLATARRAY_ELEM(5, L30) == v[5] && LIBFLATARRAY_ELEM(6, L30) == v[6] && LIBFLATARRAY_ELEM(7, L30) == v[7] && LIBFLATARRAY_ELEM(8, L30) == v[8] && LIBFLATARRAY_ELEM(9, L30) == v[9] && LIBFLATARRAY_ELEM(10, L30) == v[10] && LIBFLATARRAY_ELEM(11, L30) == v[11] && LIBFLATARRAY_ELEM(12, L30) == v[12] && LIBFLATARRAY_ELEM(13, L30) == v[13] && LIBFLATARRAY_ELEM(14, L30) == v[14] && LIBFLATARRAY_ELEM(15, L30) == v[15] && LIBFLATARRAY_ELEM(16, L30) == v[16] && LIBFLATARRAY_ELEM(17, L30) == v[17] && LIBFLATARRAY_ELEM(18, L30) == v[18] && LIBFLATARRAY_ELEM(19, L30) == v[19] && LIBFLATARRAY_ELEM(20, L30) == v[20] && LIBFLATARRAY_ELEM(21, L30) == v[21] && LIBFLATARRAY_ELEM(22, L30) == v[22] && LIBFLATARRAY_ELEM(23, L30) == v[23] && LIBFLATARRAY_ELEM(24, L30) == v[24] && LIBFLATARRAY_ELEM(25, L30) == v[25] && LIBFLATARRAY_ELEM(26, L30) == v[26] && LIBFLATARRAY_ELEM(27, L30) == v[27] && LIBFLATARRAY_ELEM(28, L30) == v[28] && LIBFLATARRAY_ELEM(29, L30) == v[29], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L31) == v[0] && LIBFLATARRAY_ELEM(1, L31) == v[1] && LIBFLATARRAY_ELEM(2, L31) == v[2] && LIBFLATARRAY_ELEM(3, L31) == v[3] && LIBFLATARRAY_ELEM(4, L31) == v[4] && LIBFLATARRAY_ELEM(5, L31) == v[5] && LIBFLATARRAY_ELEM(6, L31) == v[6] && LIBFLATARRAY_ELEM(7, L31) == v[7] && LIBFLATARRAY_ELEM(8, L31) == v[8] && LIBFLATARRAY_ELEM(9, L31) == v[9] && LIBFLATARRAY_ELEM(10, L31) == v[10] && LIBFLATARRAY_ELEM(11, L31) == v[11] && LIBFLATARRAY_ELEM(12, L31) == v[12] && LIBFLATARRAY_ELEM(13, L31) == v[13] && LIBFLATARRAY_ELEM(14, L31) == v[14] && LIBFLATARRAY_ELEM(15, L31) == v[15] && LIBFLATARRAY_ELEM(16, L31) == v[16] && LIBFLATARRAY_ELEM(17, L31) == v[17] && LIBFLATARRAY_ELEM(18, L31) == v[18] && LIBFLATARRAY_ELEM(19, L31) == v[19] && LIBFLATARRAY_ELEM(20, L31) == v[20] && LIBFLATARRAY_ELEM(21, L31) == v[21] && LIBFLATARRAY_ELEM(22, L31) == v[22] && LIBFLATARRAY_ELEM(23, L31) == v[23] && LIBFLATARRAY_ELEM(24, L31) == v[24] && LIBFLATARRAY_ELEM(25, L31) == v[25] && LIBFLATARRAY_ELEM(26, L31) == v[26] && LIBFLATARRAY_ELEM(27, L31) == v[27] && LIBFLATARRAY_ELEM(28, L31) == v[28] && LIBFLATARRAY_ELEM(29, L31) == v[29] && LIBFLATARRAY_ELEM(30, L31) == v[30], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L32) == v[0] && LIBFLATARRAY_ELEM(1, L32) == v[1] && LIBFLATARRAY_ELEM(2, L32) == v[2] && LIBFLATARRAY_ELEM(3, L32) == v[3] && LIBFLATARRAY_ELEM(4, L32) == v[4] && LIBFLATARRAY_ELEM(5, L32) == v[5] && LIBFLATARRAY_ELEM(6, L32) == v[6] && LIBFLATARRAY_ELEM(7, L32) == v[7] && LIBFLATARRAY_ELEM(8, L32) == v[8] && LIBFLATARRAY_ELEM(9, L32) == v[9] && LIBFLATARRAY_ELEM(10, L32) == v[10] && LIBFLATARRAY_ELEM(11, L32) == v[11] && LIBFLATARRAY_ELEM(12, L32) == v[12] && LIBFLATARRAY_ELEM(13, L32) == v[13] && LIBFLATARRAY_ELEM(14, L32) == v[14] && LIBFLATARRAY_ELEM(15, L32) == v[15] && LIBFLATARRAY_ELEM(16, L32) == v[16] && LIBFLATARRAY_ELEM(17, L32) == v[17] && LIBFLATARRAY_ELEM(18, L32) == v[18] && LIBFLATARRAY_ELEM(19, L32) == v[19] && LIBFLATARRAY_ELEM(20, L32) == v[20] && LIBFLATARRAY_ELEM(21, L32) == v[21] && LIBFLATARRAY_ELEM(22, L32) == v[22] && LIBFLATARRAY_ELEM(23, L32) == v[23] && LIBFLATARRAY_ELEM(24, L32) == v[24] && LIBFLATARRAY_ELEM(25, L32) == v[25] && LIBFLATARRAY_ELEM(26, L32) == v[26] && LIBFLATARRAY_ELEM(27, L32) == v[27] && LIBFLATARRAY_ELEM(28, L32) == v[28] && LIBFLATARRAY_ELEM(29, L32) == v[29] && LIBFLATARRAY_ELEM(30, L32) == v[30] && LIBFLATARRAY_ELEM(31, L32) == v[31], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L33) == v[0] && LIBFLATARRAY_ELEM(1, L33) == v[1] && LIBFLATARRAY_ELEM(2, L33) == v[2] && LIBFLATARRAY_ELEM(3, L33) == v[3] && LIBFLATARRAY_ELEM(4, L33) == v[4] && LIBFLATARRAY_ELEM(5, L33) == v[5] && LIBFLATARRAY_ELEM(6, L33) == v[6] && LIBFLATARRAY_ELEM(7, L33) == v[7] && LIBFLATARRAY_ELEM(8, L33) == v[8] && LIBFLATARRAY_ELEM(9, L33) == v[9] && LIBFLATARRAY_ELEM(10, L33) == v[10] && LIBFLATARRAY_ELEM(11, L33) == v[11] && LIBFLATARRAY_ELEM(12, L33) == v[12] && LIBFLATARRAY_ELEM(13, L33) == v[13] && LIBFLATARRAY_ELEM(14, L33) == v[14] && LIBFLATARRAY_ELEM(15, L33) == v[15] && LIBFLATARRAY_ELEM(16, L33) == v[16] && LIBFLATARRAY_ELEM(17, L33) == v[17] && LIBFLATARRAY_ELEM(18, L33) == v[18] && LIBFLATARRAY_ELEM(19, L33) == v[19] && LIBFLATARRAY_ELEM(20, L33) == v[20] && LIBFLATARRAY_ELEM(21, L33) == v[21] && LIBFLATARRAY_ELEM(22, L33) == v[22] && LIBFLATARRAY_ELEM(23, L33) == v[23] && LIBFLATARRAY_ELEM(24, L33) == v[24] && LIBFLATARRAY_ELEM(25, L33) == v[25] && LIBFLATARRAY_ELEM(26, L33) == v[26] && LIBFLATARRAY_ELEM(27, L33) == v[27] && LIBFLATARRAY_ELEM(28, L33) == v[28] && LIBFLATARRAY_ELEM(29, L33) == v[29] && LIBFLATARRAY_ELEM(30, L33) == v[30] && LIBFLATARRAY_ELEM(31, L33) == v[31] && LIBFLATARRAY_ELEM(32, L33) == v[32], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L34) == v[0] && LIBFLATARRAY_ELEM(1, L34) == v[1] && LIBFLATARRAY_ELEM(2, L34) == v[2] && LIBFLATARRAY_ELEM(3, L34) == v[3] && LIBFLATARRAY_ELEM(4, L34) == v[4] && LIBFLATARRAY_ELEM(5, L34) == v[5] && LIBFLATARRAY_ELEM(6, L34) == v[6] && LIBFLATARRAY_ELEM(7, L34) == v[7] && LIBFLATARRAY_ELEM(8, L34) == v[8] && LIBFLATARRAY_ELEM(9, L34) == v[9] && LIBFLATARRAY_ELEM(10, L34) == v[10] && LIBFLATARRAY_ELEM(11, L34) == v[11] && LIBFLATARRAY_ELEM(12, L34) == v[12] && LIBFLATARRAY_ELEM(13, L34) == v[13] && LIBFLATARRAY_ELEM(14, L34) == v[14] && LIBFLATARRAY_ELEM(15, L34) == v[15] && LIBFLATARRAY_ELEM(16, L34) == v[16] && LIBFLATARRAY_ELEM(17, L34) == v[17] && LIBFLATARRAY_ELEM(18, L34) == v[18] && LIBFLATARRAY_ELEM(19, L34) == v[19] && LIBFLATARRAY_ELEM(20, L34) == v[20] && LIBFLATARRAY_ELEM(21, L34) == v[21] && LIBFLATARRAY_ELEM(22, L34) == v[22] && LIBFLATARRAY_ELEM(23, L34) == v[23] && LIBFLATARRAY_ELEM(24, L34) == v[24] && LIBFLATARRAY_ELEM(25, L34) == v[25] && LIBFLATARRAY_ELEM(26, L34) == v[26] && LIBFLATARRAY_ELEM(27, L34) == v[27] && LIBFLATARRAY_ELEM(28, L34) == v[28] && LIBFLATARRAY_ELEM(29, L34) == v[29] && LIBFLATARRAY_ELEM(30, L34) == v[30] && LIBFLATARRAY_ELEM(31, L34) == v[31] && LIBFLATARRAY_ELEM(32, L34) == v[32] && LIBFLATARRAY_ELEM(33, L34) == v[33], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L35) == v[0] && LIBFLATARRAY_ELEM(1, L35) == v[1] && LIBFLATARRAY_ELEM(2, L35) == v[2] && LIBFLATARRAY_ELEM(3, L35) == v[3] && LIBFLATARRAY_ELEM(4, L35) == v[4] && LIBFLATARRAY_ELEM(5, L35) == v[5] && LIBFLATARRAY_ELEM(6, L35) == v[6] && LIBFLATARRAY_ELEM(7, L35) == v[7] && LIBFLATARRAY_ELEM(8, L35) == v[8] && LIBFLATARRAY_ELEM(9, L35) == v[9] && LIBFLATARRAY_ELEM(10, L35) == v[10] && LIBFLATARRAY_ELEM(11, L35) == v[11] && LIBFLATARRAY_ELEM(12, L35) == v[12] && LIBFLATARRAY_ELEM(13, L35) == v[13] && LIBFLATARRAY_ELEM(14, L35) == v[14] && LIBFLATARRAY_ELEM(15, L35) == v[15] && LIBFLATARRAY_ELEM(16, L35) == v[16] && LIBFLATARRAY_ELEM(17, L35) == v[17] && LIBFLATARRAY_ELEM(18, L35) == v[18] && LIBFLATARRAY_ELEM(19, L35) == v[19] && LIBFLATARRAY_ELEM(20, L35) == v[20] && LIBFLATARRAY_ELEM(21, L35) == v[21] && LIBFLATARRAY_ELEM(22, L35) == v[22] && LIBFLATARRAY_ELEM(23, L35) == v[23] && LIBFLATARRAY_ELEM(24, L35) == v[24] && LIBFLATARRAY_ELEM(25, L35) == v[25] && LIBFLATARRAY_ELEM(26, L35) == v[26] && LIBFLATARRAY_ELEM(27, L35) == v[27] && LIBFLATARRAY_ELEM(28, L35) == v[28] && LIBFLATARRAY_ELEM(29, L35) == v[29] && LIBFLATARRAY_ELEM(30, L35) == v[30] && LIBFLATARRAY_ELEM(31, L35) == v[31] && LIBFLATARRAY_ELEM(32, L35) == v[32] && LIBFLATARRAY_ELEM(33, L35) == v[33] && LIBFLATARRAY_ELEM(34, L35) == v[34], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L36) == v[0] && LIBFLATARRAY_ELEM(1, L36) == v[1] && LIBFLATARRAY_ELEM(2, L36) == v[2] && LIBFLATARRAY_ELEM(3, L36) == v[3] && LIBFLATARRAY_ELEM(4, L36) == v[4] && LIBFLATARRAY_ELEM(5, L36) == v[5] && LIBFLATARRAY_ELEM(6, L36) == v[6] && LIBFLATARRAY_ELEM(7, L36) == v[7] && LIBFLATARRAY_ELEM(8, L36) == v[8] && LIBFLATARRAY_ELEM(9, L36) == v[9] && LIBFLATARRAY_ELEM(10, L36) == v[10] && LIBFLATARRAY_ELEM(11, L36) == v[11] && LIBFLATARRAY_ELEM(12, L36) == v[12] && LIBFLATARRAY_ELEM(13, L36) == v[13] && LIBFLATARRAY_ELEM(14, L36) == v[14] && LIBFLATARRAY_ELEM(15, L36) == v[15] && LIBFLATARRAY_ELEM(16, L36) == v[16] && LIBFLATARRAY_ELEM(17, L36) == v[17] && LIBFLATARRAY_ELEM(18, L36) == v[18] && LIBFLATARRAY_ELEM(19, L36) == v[19] && LIBFLATARRAY_ELEM(20, L36) == v[20] && LIBFLATARRAY_ELEM(21, L36) == v[21] && LIBFLATARRAY_ELEM(22, L36) == v[22] && LIBFLATARRAY_ELEM(23, L36) == v[23] && LIBFLATARRAY_ELEM(24, L36) == v[24] && LIBFLATARRAY_ELEM(25, L36) == v[25] && LIBFLATARRAY_ELEM(26, L36) == v[26] && LIBFLATARRAY_ELEM(27, L36) == v[27] && LIBFLATARRAY_ELEM(28, L36) == v[28] && LIBFLATARRAY_ELEM(29, L36) == v[29] && LIBFLATARRAY_ELEM(30, L36) == v[30] && LIBFLATARRAY_ELEM(31, L36) == v[31] && LIBFLATARRAY_ELEM(32, L36) == v[32] && LIBFLATARRAY_ELEM(33, L36) == v[33] && LIBFLATARRAY_ELEM(34, L36) == v[34] && LIBFLATARRAY_ELEM(35, L36) == v[35], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L37) == v[0] && LIBFLATARRAY_ELEM(1, L37) == v[1] && LIBFLATARRAY_ELEM(2, L37) == v[2] && LIBFLATARRAY_ELEM(3, L37) == v[3] && LIBFLATARRAY_ELEM(4, L37) == v[4] && LIBFLATARRAY_ELEM(5, L37) == v[5] && LIBFLATARRAY_ELEM(6, L37) == v[6] && LIBFLATARRAY_ELEM(7, L37) == v[7] && LIBFLATARRAY_ELEM(8, L37) == v[8] && LIBFLATARRAY_ELEM(9, L37) == v[9] && LIBFLATARRAY_ELEM(10, L37) == v[10] && LIBFLATARRAY_ELEM(11, L37) == v[11] && LIBFLATARRAY_ELEM(12, L37) == v[12] && LIBFLATARRAY_ELEM(13, L37) == v[13] && LIBFLATARRAY_ELEM(14, L37) == v[14] && LIBFLATARRAY_ELEM(15, L37) == v[15] && LIBFLATARRAY_ELEM(16, L37) == v[16] && LIBFLATARRAY_ELEM(17, L37) == v[17] && LIBFLATARRAY_ELEM(18, L37) == v[18] && LIBFLATARRAY_ELEM(19, L37) == v[19] && LIBFLATARRAY_ELEM(20, L37) == v[20] && LIBFLATARRAY_ELEM(21, L37) == v[21] && LIBFLATARRAY_ELEM(22, L37) == v[22] && LIBFLATARRAY_ELEM(23, L37) == v[23] && LIBFLATARRAY_ELEM(24, L37) == v[24] && LIBFLATARRAY_ELEM(25, L37) == v[25] && LIBFLATARRAY_ELEM(26, L37) == v[26] && LIBFLATARRAY_ELEM(27, L37) == v[27] && LIBFLATARRAY_ELEM(28, L37) == v[28] && LIBFLATARRAY_ELEM(29, L37) == v[29] && LIBFLATARRAY_ELEM(30, L37) == v[30] && LIBFLATARRAY_ELEM(31, L37) == v[31] && LIBFLATARRAY_ELEM(32, L37) == v[32] && LIBFLATARRAY_ELEM(33, L37) == v[33] && LIBFLATARRAY_ELEM(34, L37) == v[34] && LIBFLATARRAY_ELEM(35, L37) == v[35] && LIBFLATARRAY_ELEM(36, L37) == v[36], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L38) == v[0] && LIBFLATARRAY_ELEM(1, L38) == v[1] && LIBFLATARRAY_ELEM(2, L38) == v[2] && LIBFLATARRAY_ELEM(3, L38) == v[3] && LIBFLATARRAY_ELEM(4, L38) == v[4] && LIBFLATARRAY_ELEM(5, L38) == v[5] && LIBFLATARRAY_ELEM(6, L38) == v[6] && LIBFLATARRAY_ELEM(7, L38) == v[7] && LIBFLATARRAY_ELEM(8, L38) == v[8] && LIBFLATARRAY_ELEM(9, L38) == v[9] && LIBFLATARRAY_ELEM(10, L38) == v[10] && LIBFLATARRAY_ELEM(11, L38) == v[11] && LIBFLATARRAY_ELEM(12, L38) == v[12] && LIBFLATARRAY_ELEM(13, L38) == v[13] && LIBFLATARRAY_ELEM(14, L38) == v[14] && LIBFLATARRAY_ELEM(15, L38) == v[15] && LIBFLATARRAY_ELEM(16, L38) == v[16] && LIBFLATARRAY_ELEM(17, L38) == v[17] && LIBFLATARRAY_ELEM(18, L38) == v[18] && LIBFLATARRAY_ELEM(19, L38) == v[19] && LIBFLATARRAY_ELEM(20, L38) == v[20] && LIBFLATARRAY_ELEM(21, L38) == v[21] && LIBFLATARRAY_ELEM(22, L38) == v[22] && LIBFLATARRAY_ELEM(23, L38) == v[23] && LIBFLATARRAY_ELEM(24, L38) == v[24] && LIBFLATARRAY_ELEM(25, L38) == v[25] && LIBFLATARRAY_ELEM(26, L38) == v[26] && LIBFLATARRAY_ELEM(27, L38) == v[27] && LIBFLATARRAY_ELEM(28, L38) == v[28] && LIBFLATARRAY_ELEM(29, L38) == v[29] && LIBFLATARRAY_ELEM(30, L38) == v[30] && LIBFLATARRAY_ELEM(31, L38) == v[31] && LIBFLATARRAY_ELEM(32, L38) == v[32] && LIBFLATARRAY_ELEM(33, L38) == v[33] && LIBFLATARRAY_ELEM(34, L38) == v[34] && LIBFLATARRAY_ELEM(35, L38) == v[35] && LIBFLATARRAY_ELEM(36, L38) == v[36] && LIBFLATARRAY_ELEM(37, L38) == v[37], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L39) == v[0] && LIBFLATARRAY_ELEM(1, L39) == v[1] && LIBFLATARRAY_ELEM(2, L39) == v[2] && LIBFLATARRAY_ELEM(3, L39) == v[3] && LIBFLATARRAY_ELEM(4, L39) == v[4] && LIBFLATARRAY_ELEM(5, L39) == v[5] && LIBFLATARRAY_ELEM(6, L39) == v[6] && LIBFLATARRAY_ELEM(7, L39) == v[7] && LIBFLATARRAY_ELEM(8, L39) == v[8] && LIBFLATARRAY_ELEM(9, L39) == v[9] && LIBFLATARRAY_ELEM(10, L39) == v[10] && LIBFLATARRAY_ELEM(11, L39) == v[11] && LIBFLATARRAY_ELEM(12, L39) == v[12] && LIBFLATARRAY_ELEM(13, L39) == v[13] && LIBFLATARRAY_ELEM(14, L39) == v[14] && LIBFLATARRAY_ELEM(15, L39) == v[15] && LIBFLATARRAY_ELEM(16, L39) == v[16] && LIBFLATARRAY_ELEM(17, L39) == v[17] && LIBFLATARRAY_ELEM(18, L39) == v[18] && LIBFLATARRAY_ELEM(19, L39) == v[19] && LIBFLATARRAY_ELEM(20, L39) == v[20] && LIBFLATARRAY_ELEM(21, L39) == v[21] && LIBFLATARRAY_ELEM(22, L39) == v[22] && LIBFLATARRAY_ELEM(23, L39) == v[23] && LIBFLATARRAY_ELEM(24, L39) == v[24] && LIBFLATARRAY_ELEM(25, L39) == v[25] && LIBFLATARRAY_ELEM(26, L39) == v[26] && LIBFLATARRAY_ELEM(27, L39) == v[27] && LIBFLATARRAY_ELEM(28, L39) == v[28] && LIBFLATARRAY_ELEM(29, L39) == v[29] && LIBFLATARRAY_ELEM(30, L39) == v[30] && LIBFLATARRAY_ELEM(31, L39) == v[31] && LIBFLATARRAY_ELEM(32, L39) == v[32] && LIBFLATARRAY_ELEM(33, L39) == v[33] && LIBFLATARRAY_ELEM(34, L39) == v[34] && LIBFLATARRAY_ELEM(35, L39) == v[35] && LIBFLATARRAY_ELEM(36, L39) == v[36] && LIBFLATARRAY_ELEM(37, L39) == v[37] && LIBFLATARRAY_ELEM(38, L39) == v[38], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L40) == v[0] && LIBFLATARRAY_ELEM(1, L40) == v[1] && LIBFLATARRAY_ELEM(2, L40) == v[2] && LIBFLATARRAY_ELEM(3, L40) == v[3] && LIBFLATARRAY_ELEM(4, L40) == v[4] && LIBFLATARRAY_ELEM(5, L40) == v[5] && LIBFLATARRAY_ELEM(6, L40) == v[6] && LIBFLATARRAY_ELEM(7, L40) == v[7] && LIBFLATARRAY_ELEM(8, L40) == v[8] && LIBFLATARRAY_ELEM(9, L40) == v[9] && LIBFLATARRAY_ELEM(10, L40) == v[10] && LIBFLATARRAY_ELEM(11, L40) == v[11] && LIBFLATARRAY_ELEM(12, L40) == v[12] && LIBFLATARRAY_ELEM(13, L40) == v[13] && LIBFLATARRAY_ELEM(14, L40) == v[14] && LIBFLATARRAY_ELEM(15, L40) == v[15] && LIBFLATARRAY_ELEM(16, L40) == v[16] && LIBFLATARRAY_ELEM(17, L40) == v[17] && LIBFLATARRAY_ELEM(18, L40) == v[18] && LIBFLATARRAY_ELEM(19, L40) == v[19] && LIBFLATARRAY_ELEM(20, L40) == v[20] && LIBFLATARRAY_ELEM(21, L40) == v[21] && LIBFLATARRAY_ELEM(22, L40) == v[22] && LIBFLATARRAY_ELEM(23, L40) == v[23] && LIBFLATARRAY_ELEM(24, L40) == v[24] && LIBFLATARRAY_ELEM(25, L40) == v[25] && LIBFLATARRAY_ELEM(26, L40) == v[26] && LIBFLATARRAY_ELEM(27, L40) == v[27] && LIBFLATARRAY_ELEM(28, L40) == v[28] && LIBFLATARRAY_ELEM(29, L40) == v[29] && LIBFLATARRAY_ELEM(30, L40) == v[30] && LIBFLATARRAY_ELEM(31, L40) == v[31] && LIBFLATARRAY_ELEM(32, L40) == v[32] && LIBFLATARRAY_ELEM(33, L40) == v[33] && LIBFLATARRAY_ELEM(34, L40) == v[34] && LIBFLATARRAY_ELEM(35, L40) == v[35] && LIBFLATARRAY_ELEM(36, L40) == v[36] && LIBFLATARRAY_ELEM(37, L40) == v[37] && LIBFLATARRAY_ELEM(38, L40) == v[38] && LIBFLATARRAY_ELEM(39, L40) == v[39], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L41) == v[0] && LIBFLATARRAY_ELEM(1, L41) == v[1] && LIBFLATARRAY_ELEM(2, L41) == v[2] && LIBFLATARRAY_ELEM(3, L41) == v[3] && LIBFLATARRAY_ELEM(4, L41) == v[4] && LIBFLATARRAY_ELEM(5, L41) == v[5] && LIBFLATARRAY_ELEM(6, L41) == v[6] && LIBFLATARRAY_ELEM(7, L41) == v[7] && LIBFLATARRAY_ELEM(8, L41) == v[8] && LIBFLATARRAY_ELEM(9, L41) == v[9] && LIBFLATARRAY_ELEM(10, L41) == v[10] && LIBFLATARRAY_ELEM(11, L41) == v[11] && LIBFLATARRAY_ELEM(12, L41) == v[12] && LIBFLATARRAY_ELEM(13, L41) == v[13] && LIBFLATARRAY_ELEM(14, L41) == v[14] && LIBFLATARRAY_ELEM(15, L41) == v[15] && LIBFLATARRAY_ELEM(16, L41) == v[16] && LIBFLATARRAY_ELEM(17, L41) == v[17] && LIBFLATARRAY_ELEM(18, L41) == v[18] && LIBFLATARRAY_ELEM(19, L41) == v[19] && LIBFLATARRAY_ELEM(20, L41) == v[20] && LIBFLATARRAY_ELEM(21, L41) == v[21] && LIBFLATARRAY_ELEM(22, L41) == v[22] && LIBFLATARRAY_ELEM(23, L41) == v[23] && LIBFLATARRAY_ELEM(24, L41) == v[24] && LIBFLATARRAY_ELEM(25, L41) == v[25] && LIBFLATARRAY_ELEM(26, L41) == v[26] && LIBFLATARRAY_ELEM(27, L41) == v[27] && LIBFLATARRAY_ELEM(28, L41) == v[28] && LIBFLATARRAY_ELEM(29, L41) == v[29] && LIBFLATARRAY_ELEM(30, L41) == v[30] && LIBFLATARRAY_ELEM(31, L41) == v[31] && LIBFLATARRAY_ELEM(32, L41) == v[32] && LIBFLATARRAY_ELEM(33, L41) == v[33] && LIBFLATARRAY_ELEM(34, L41) == v[34] && LIBFLATARRAY_ELEM(35, L41) == v[35] && LIBFLATARRAY_ELEM(36, L41) == v[36] && LIBFLATARRAY_ELEM(37, L41) == v[37] && LIBFLATARRAY_ELEM(38, L41) == v[38] && LIBFLATARRAY_ELEM(39, L41) == v[39] && LIBFLATARRAY_ELEM(40, L41) == v[40], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L42) == v[0] && LIBFLATARRAY_ELEM(1, L42) == v[1] && LIBFLATARRAY_ELEM(2, L42) == v[2] && LIBFLATARRAY_ELEM(3, L42) == v[3] && LIBFLATARRAY_ELEM(4, L42) == v[4] && LIBFLATARRAY_ELEM(5, L42) == v[5] && LIBFLATARRAY_ELEM(6, L42) == v[6] && LIBFLATARRAY_ELEM(7, L42) == v[7] && LIBFLATARRAY_ELEM(8, L42) == v[8] && LIBFLATARRAY_ELEM(9, L42) == v[9] && LIBFLATARRAY_ELEM(10, L42) == v[10] && LIBFLATARRAY_ELEM(11, L42) == v[11] && LIBFLATARRAY_ELEM(12, L42) == v[12] && LIBFLATARRAY_ELEM(13, L42) == v[13] && LIBFLATARRAY_ELEM(14, L42) == v[14] && LIBFLATARRAY_ELEM(15, L42) == v[15] && LIBFLATARRAY_ELEM(16, L42) == v[16] && LIBFLATARRAY_ELEM(17, L42) == v[17] && LIBFLATARRAY_ELEM(18, L42) == v[18] && LIBFLATARRAY_ELEM(19, L42) == v[19] && LIBFLATARRAY_ELEM(20, L42) == v[20] && LIBFLATARRAY_ELEM(21, L42) == v[21] && LIBFLATARRAY_ELEM(22, L42) == v[22] && LIBFLATARRAY_ELEM(23, L42) == v[23] && LIBFLATARRAY_ELEM(24, L42) == v[24] && LIBFLATARRAY_ELEM(25, L42) == v[25] && LIBFLATARRAY_ELEM(26, L42) == v[26] && LIBFLATARRAY_ELEM(27, L42) == v[27] && LIBFLATARRAY_ELEM(28, L42) == v[28] && LIBFLATARRAY_ELEM(29, L42) == v[29] && LIBFLATARRAY_ELEM(30, L42) == v[30] && LIBFLATARRAY_ELEM(31, L42) == v[31] && LIBFLATARRAY_ELEM(32, L42) == v[32] && LIBFLATARRAY_ELEM(33, L42) == v[33] && LIBFLATARRAY_ELEM(34, L42) == v[34] && LIBFLATARRAY_ELEM(35, L42) == v[35] && LIBFLATARRAY_ELEM(36, L42) == v[36] && LIBFLATARRAY_ELEM(37, L42) == v[37] && LIBFLATARRAY_ELEM(38, L42) == v[38] && LIBFLATARRAY_ELEM(39, L42) == v[39] && LIBFLATARRAY_ELEM(40, L42) == v[40] && LIBFLATARRAY_ELEM(41, L42) == v[41], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L43) == v[0] && LIBFLATARRAY_ELEM(1, L43) == v[1] && LIBFLATARRAY_ELEM(2, L43) == v[2] && LIBFLATARRAY_ELEM(3, L43) == v[3] && LIBFLATARRAY_ELEM(4, L43) == v[4] && LIBFLATARRAY_ELEM(5, L43) == v[5] && LIBFLATARRAY_ELEM(6, L43) == v[6] && LIBFLATARRAY_ELEM(7, L43) == v[7] && LIBFLATARRAY_ELEM(8, L43) == v[8] && LIBFLATARRAY_ELEM(9, L43) == v[9] && LIBFLATARRAY_ELEM(10, L43) == v[10] && LIBFLATARRAY_ELEM(11, L43) == v[11] && LIBFLATARRAY_ELEM(12, L43) == v[12] && LIBFLATARRAY_ELEM(13, L43) == v[13] && LIBFLATARRAY_ELEM(14, L43) == v[14] && LIBFLATARRAY_ELEM(15, L43) == v[15] && LIBFLATARRAY_ELEM(16, L43) == v[16] && LIBFLATARRAY_ELEM(17, L43) == v[17] && LIBFLATARRAY_ELEM(18, L43) == v[18] && LIBFLATARRAY_ELEM(19, L43) == v[19] && LIBFLATARRAY_ELEM(20, L43) == v[20] && LIBFLATARRAY_ELEM(21, L43) == v[21] && LIBFLATARRAY_ELEM(22, L43) == v[22] && LIBFLATARRAY_ELEM(23, L43) == v[23] && LIBFLATARRAY_ELEM(24, L43) == v[24] && LIBFLATARRAY_ELEM(25, L43) == v[25] && LIBFLATARRAY_ELEM(26, L43) == v[26] && LIBFLATARRAY_ELEM(27, L43) == v[27] && LIBFLATARRAY_ELEM(28, L43) == v[28] && LIBFLATARRAY_ELEM(29, L43) == v[29] && LIBFLATARRAY_ELEM(30, L43) == v[30] && LIBFLATARRAY_ELEM(31, L43) == v[31] && LIBFLATARRAY_ELEM(32, L43) == v[32] && LIBFLATARRAY_ELEM(33, L43) == v[33] && LIBFLATARRAY_ELEM(34, L43) == v[34] && LIBFLATARRAY_ELEM(35, L43) == v[35] && LIBFLATARRAY_ELEM(36, L43) == v[36] && LIBFLATARRAY_ELEM(37, L43) == v[37] && LIBFLATARRAY_ELEM(38, L43) == v[38] && LIBFLATARRAY_ELEM(39, L43) == v[39] && LIBFLATARRAY_ELEM(40, L43) == v[40] && LIBFLATARRAY_ELEM(41, L43) == v[41] && LIBFLATARRAY_ELEM(42, L43) == v[42], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L44) == v[0] && LIBFLATARRAY_ELEM(1, L44) == v[1] && LIBFLATARRAY_ELEM(2, L44) == v[2] && LIBFLATARRAY_ELEM(3, L44) == v[3] && LIBFLATARRAY_ELEM(4, L44) == v[4] && LIBFLATARRAY_ELEM(5, L44) == v[5] && LIBFLATARRAY_ELEM(6, L44) == v[6] && LIBFLATARRAY_ELEM(7, L44) == v[7] && LIBFLATARRAY_ELEM(8, L44) == v[8] && LIBFLATARRAY_ELEM(9, L44) == v[9] && LIBFLATARRAY_ELEM(10, L44) == v[10] && LIBFLATARRAY_ELEM(11, L44) == v[11] && LIBFLATARRAY_ELEM(12, L44) == v[12] && LIBFLATARRAY_ELEM(13, L44) == v[13] && LIBFLATARRAY_ELEM(14, L44) == v[14] && LIBFLATARRAY_ELEM(15, L44) == v[15] && LIBFLATARRAY_ELEM(16, L44) == v[16] && LIBFLATARRAY_ELEM(17, L44) == v[17] && LIBFLATARRAY_ELEM(18, L44) == v[18] && LIBFLATARRAY_ELEM(19, L44) == v[19] && LIBFLATARRAY_ELEM(20, L44) == v[20] && LIBFLATARRAY_ELEM(21, L44) == v[21] && LIBFLATARRAY_ELEM(22, L44) == v[22] && LIBFLATARRAY_ELEM(23, L44) == v[23] && LIBFLATARRAY_ELEM(24, L44) == v[24] && LIBFLATARRAY_ELEM(25, L44) == v[25] && LIBFLATARRAY_ELEM(26, L44) == v[26] && LIBFLATARRAY_ELEM(27, L44) == v[27] && LIBFLATARRAY_ELEM(28, L44) == v[28] && LIBFLATARRAY_ELEM(29, L44) == v[29] && LIBFLATARRAY_ELEM(30, L44) == v[30] && LIBFLATARRAY_ELEM(31, L44) == v[31] && LIBFLATARRAY_ELEM(32, L44) == v[32] && LIBFLATARRAY_ELEM(33, L44) == v[33] && LIBFLATARRAY_ELEM(34, L44) == v[34] && LIBFLATARRAY_ELEM(35, L44) == v[35] && LIBFLATARRAY_ELEM(36, L44) == v[36] && LIBFLATARRAY_ELEM(37, L44) == v[37] && LIBFLATARRAY_ELEM(38, L44) == v[38] && LIBFLATARRAY_ELEM(39, L44) == v[39] && LIBFLATARRAY_ELEM(40, L44) == v[40] && LIBFLATARRAY_ELEM(41, L44) == v[41] && LIBFLATARRAY_ELEM(42, L44) == v[42] && LIBFLATARRAY_ELEM(43, L44) == v[43], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L45) == v[0] && LIBFLATARRAY_ELEM(1, L45) == v[1] && LIBFLATARRAY_ELEM(2, L45) == v[2] && LIBFLATARRAY_ELEM(3, L45) == v[3] && LIBFLATARRAY_ELEM(4, L45) == v[4] && LIBFLATARRAY_ELEM(5, L45) == v[5] && LIBFLATARRAY_ELEM(6, L45) == v[6] && LIBFLATARRAY_ELEM(7, L45) == v[7] && LIBFLATARRAY_ELEM(8, L45) == v[8] && LIBFLATARRAY_ELEM(9, L45) == v[9] && LIBFLATARRAY_ELEM(10, L45) == v[10] && LIBFLATARRAY_ELEM(11, L45) == v[11] && LIBFLATARRAY_ELEM(12, L45) == v[12] && LIBFLATARRAY_ELEM(13, L45) == v[13] && LIBFLATARRAY_ELEM(14, L45) == v[14] && LIBFLATARRAY_ELEM(15, L45) == v[15] && LIBFLATARRAY_ELEM(16, L45) == v[16] && LIBFLATARRAY_ELEM(17, L45) == v[17] && LIBFLATARRAY_ELEM(18, L45) == v[18] && LIBFLATARRAY_ELEM(19, L45) == v[19] && LIBFLATARRAY_ELEM(20, L45) == v[20] && LIBFLATARRAY_ELEM(21, L45) == v[21] && LIBFLATARRAY_ELEM(22, L45) == v[22] && LIBFLATARRAY_ELEM(23, L45) == v[23] && LIBFLATARRAY_ELEM(24, L45) == v[24] && LIBFLATARRAY_ELEM(25, L45) == v[25] && LIBFLATARRAY_ELEM(26, L45) == v[26] && LIBFLATARRAY_ELEM(27, L45) == v[27] && LIBFLATARRAY_ELEM(28, L45) == v[28] && LIBFLATARRAY_ELEM(29, L45) == v[29] && LIBFLATARRAY_ELEM(30, L45) == v[30] && LIBFLATARRAY_ELEM(31, L45) == v[31] && LIBFLATARRAY_ELEM(32, L45) == v[32] && LIBFLATARRAY_ELEM(33, L45) == v[33] && LIBFLATARRAY_ELEM(34, L45) == v[34] && LIBFLATARRAY_ELEM(35, L45) == v[35] && LIBFLATARRAY_ELEM(36, L45) == v[36] && LIBFLATARRAY_ELEM(37, L45) == v[37] && LIBFLATARRAY_ELEM(38, L45) == v[38] && LIBFLATARRAY_ELEM(39, L45) == v[39] && LIBFLATARRAY_ELEM(40, L45) == v[40] && LIBFLATARRAY_ELEM(41, L45) == v[41] && LIBFLATARRAY_ELEM(42, L45) == v[42] && LIBFLATARRAY_ELEM(43, L45) == v[43] && LIBFLATARRAY_ELEM(44, L45) == v[44], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L46) == v[0] && LIBFLATARRAY_ELEM(1, L46) == v[1] && LIBFLATARRAY_ELEM(2, L46) == v[2] && LIBFLATARRAY_ELEM(3, L46) == v[3] && LIBFLATARRAY_ELEM(4, L46) == v[4] && LIBFLATARRAY_ELEM(5, L46) == v[5] && LIBFLATARRAY_ELEM(6, L46) == v[6] && LIBFLATARRAY_ELEM(7, L46) == v[7] && LIBFLATARRAY_ELEM(8, L46) == v[8] && LIBFLATARRAY_ELEM(9, L46) == v[9] && LIBFLATARRAY_ELEM(10, L46) == v[10] && LIBFLATARRAY_ELEM(11, L46) == v[11] && LIBFLATARRAY_ELEM(12, L46) == v[12] && LIBFLATARRAY_ELEM(13, L46) == v[13] && LIBFLATARRAY_ELEM(14, L46) == v[14] && LIBFLATARRAY_ELEM(15, L46) == v[15] && LIBFLATARRAY_ELEM(16, L46) == v[16] && LIBFLATARRAY_ELEM(17, L46) == v[17] && LIBFLATARRAY_ELEM(18, L46) == v[18] && LIBFLATARRAY_ELEM(19, L46) == v[19] && LIBFLATARRAY_ELEM(20, L46) == v[20] && LIBFLATARRAY_ELEM(21, L46) == v[21] && LIBFLATARRAY_ELEM(22, L46) == v[22] && LIBFLATARRAY_ELEM(23, L46) == v[23] && LIBFLATARRAY_ELEM(24, L46) == v[24] && LIBFLATARRAY_ELEM(25, L46) == v[25] && LIBFLATARRAY_ELEM(26, L46) == v[26] && LIBFLATARRAY_ELEM(27, L46) == v[27] && LIBFLATARRAY_ELEM(28, L46) == v[28] && LIBFLATARRAY_ELEM(29, L46) == v[29] && LIBFLATARRAY_ELEM(30, L46) == v[30] && LIBFLATARRAY_ELEM(31, L46) == v[31] && LIBFLATARRAY_ELEM(32, L46) == v[32] && LIBFLATARRAY_ELEM(33, L46) == v[33] && LIBFLATARRAY_ELEM(34, L46) == v[34] && LIBFLATARRAY_ELEM(35, L46) == v[35] && LIBFLATARRAY_ELEM(36, L46) == v[36] && LIBFLATARRAY_ELEM(37, L46) == v[37] && LIBFLATARRAY_ELEM(38, L46) == v[38] && LIBFLATARRAY_ELEM(39, L46) == v[39] && LIBFLATARRAY_ELEM(40, L46) == v[40] && LIBFLATARRAY_ELEM(41, L46) == v[41] && LIBFLATARRAY_ELEM(42, L46) == v[42] && LIBFLATARRAY_ELEM(43, L46) == v[43] && LIBFLATARRAY_ELEM(44, L46) == v[44] && LIBFLATARRAY_ELEM(45, L46) == v[45], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L47) == v[0] && LIBFLATARRAY_ELEM(1, L47) == v[1] && LIBFLATARRAY_ELEM(2, L47) == v[2] && LIBFLATARRAY_ELEM(3, L47) == v[3] && LIBFLATARRAY_ELEM(4, L47) == v[4] && LIBFLATARRAY_ELEM(5, L47) == v[5] && LIBFLATARRAY_ELEM(6, L47) == v[6] && LIBFLATARRAY_ELEM(7, L47) == v[7] && LIBFLATARRAY_ELEM(8, L47) == v[8] && LIBFLATARRAY_ELEM(9, L47) == v[9] && LIBFLATARRAY_ELEM(10, L47) == v[10] && LIBFLATARRAY_ELEM(11, L47) == v[11] && LIBFLATARRAY_ELEM(12, L47) == v[12] && LIBFLATARRAY_ELEM(13, L47) == v[13] && LIBFLATARRAY_ELEM(14, L47) == v[14] && LIBFLATARRAY_ELEM(15, L47) == v[15] && LIBFLATARRAY_ELEM(16, L47) == v[16] && LIBFLATARRAY_ELEM(17, L47) == v[17] && LIBFLATARRAY_ELEM(18, L47) == v[18] && LIBFLATARRAY_ELEM(19, L47) == v[19] && LIBFLATARRAY_ELEM(20, L47) == v[20] && LIBFLATARRAY_ELEM(21, L47) == v[21] && LIBFLATARRAY_ELEM(22, L47) == v[22] && LIBFLATARRAY_ELEM(23, L47) == v[23] && LIBFLATARRAY_ELEM(24, L47) == v[24] && LIBFLATARRAY_ELEM(25, L47) == v[25] && LIBFLATARRAY_ELEM(26, L47) == v[26] && LIBFLATARRAY_ELEM(27, L47) == v[27] && LIBFLATARRAY_ELEM(28, L47) == v[28] && LIBFLATARRAY_ELEM(29, L47) == v[29] && LIBFLATARRAY_ELEM(30, L47) == v[30] && LIBFLATARRAY_ELEM(31, L47) == v[31] && LIBFLATARRAY_ELEM(32, L47) == v[32] && LIBFLATARRAY_ELEM(33, L47) == v[33] && LIBFLATARRAY_ELEM(34, L47) == v[34] && LIBFLATARRAY_ELEM(35, L47) == v[35] && LIBFLATARRAY_ELEM(36, L47) == v[36] && LIBFLATARRAY_ELEM(37, L47) == v[37] && LIBFLATARRAY_ELEM(38, L47) == v[38] && LIBFLATARRAY_ELEM(39, L47) == v[39] && LIBFLATARRAY_ELEM(40, L47) == v[40] && LIBFLATARRAY_ELEM(41, L47) == v[41] && LIBFLATARRAY_ELEM(42, L47) == v[42] && LIBFLATARRAY_ELEM(43, L47) == v[43] && LIBFLATARRAY_ELEM(44, L47) == v[44] && LIBFLATARRAY_ELEM(45, L47) == v[45] && LIBFLATARRAY_ELEM(46, L47) == v[46], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L48) == v[0] && LIBFLATARRAY_ELEM(1, L48) == v[1] && LIBFLATARRAY_ELEM(2, L48) == v[2] && LIBFLATARRAY_ELEM(3, L48) == v[3] && LIBFLATARRAY_ELEM(4, L48) == v[4] && LIBFLATARRAY_ELEM(5, L48) == v[5] && LIBFLATARRAY_ELEM(6, L48) == v[6] && LIBFLATARRAY_ELEM(7, L48) == v[7] && LIBFLATARRAY_ELEM(8, L48) == v[8] && LIBFLATARRAY_ELEM(9, L48) == v[9] && LIBFLATARRAY_ELEM(10, L48) == v[10] && LIBFLATARRAY_ELEM(11, L48) == v[11] && LIBFLATARRAY_ELEM(12, L48) == v[12] && LIBFLATARRAY_ELEM(13, L48) == v[13] && LIBFLATARRAY_ELEM(14, L48) == v[14] && LIBFLATARRAY_ELEM(15, L48) == v[15] && LIBFLATARRAY_ELEM(16, L48) == v[16] && LIBFLATARRAY_ELEM(17, L48) == v[17] && LIBFLATARRAY_ELEM(18, L48) == v[18] && LIBFLATARRAY_ELEM(19, L48) == v[19] && LIBFLATARRAY_ELEM(20, L48) == v[20] && LIBFLATARRAY_ELEM(21, L48) == v[21] && LIBFLATARRAY_ELEM(22, L48) == v[22] && LIBFLATARRAY_ELEM(23, L48) == v[23] && LIBFLATARRAY_ELEM(24, L48) == v[24] && LIBFLATARRAY_ELEM(25, L48) == v[25] && LIBFLATARRAY_ELEM(26, L48) == v[26] && LIBFLATARRAY_ELEM(27, L48) == v[27] && LIBFLATARRAY_ELEM(28, L48) == v[28] && LIBFLATARRAY_ELEM(29, L48) == v[29] && LIBFLATARRAY_ELEM(30, L48) == v[30] && LIBFLATARRAY_ELEM(31, L48) == v[31] && LIBFLATARRAY_ELEM(32, L48) == v[32] && LIBFLATARRAY_ELEM(33, L48) == v[33] && LIBFLATARRAY_ELEM(34, L48) == v[34] && LIBFLATARRAY_ELEM(35, L48) == v[35] && LIBFLATARRAY_ELEM(36, L48) == v[36] && LIBFLATARRAY_ELEM(37, L48) == v[37] && LIBFLATARRAY_ELEM(38, L48) == v[38] && LIBFLATARRAY_ELEM(39, L48) == v[39] && LIBFLATARRAY_ELEM(40, L48) == v[40] && LIBFLATARRAY_ELEM(41, L48) == v[41] && LIBFLATARRAY_ELEM(42, L48) == v[42] && LIBFLATARRAY_ELEM(43, L48) == v[43] && LIBFLATARRAY_ELEM(44, L48) == v[44] && LIBFLATARRAY_ELEM(45, L48) == v[45] && LIBFLATARRAY_ELEM(46, L48) == v[46] && LIBFLATARRAY_ELEM(47, L48) == v[47], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L49) == v[0] && LIBFLATARRAY_ELEM(1, L49) == v[1] && LIBFLATARRAY_ELEM(2, L49) == v[2] && LIBFLATARRAY_ELEM(3, L49) == v[3] && LIBFLATARRAY_ELEM(4, L49) == v[4] && LIBFLATARRAY_ELEM(5, L49) == v[5] && LIBFLATARRAY_ELEM(6, L49) == v[6] && LIBFLATARRAY_ELEM(7, L49) == v[7] && LIBFLATARRAY_ELEM(8, L49) == v[8] && LIBFLATARRAY_ELEM(9, L49) == v[9] && LIBFLATARRAY_ELEM(10, L49) == v[10] && LIBFLATARRAY_ELEM(11, L49) == v[11] && LIBFLATARRAY_ELEM(12, L49) == v[12] && LIBFLATARRAY_ELEM(13, L49) == v[13] && LIBFLATARRAY_ELEM(14, L49) == v[14] && LIBFLATARRAY_ELEM(15, L49) == v[15] && LIBFLATARRAY_ELEM(16, L49) == v[16] && LIBFLATARRAY_ELEM(17, L49) == v[17] && LIBFLATARRAY_ELEM(18, L49) == v[18] && LIBFLATARRAY_ELEM(19, L49) == v[19] && LIBFLATARRAY_ELEM(20, L49) == v[20] && LIBFLATARRAY_ELEM(21, L49) == v[21] && LIBFLATARRAY_ELEM(22, L49) == v[22] && LIBFLATARRAY_ELEM(23, L49) == v[23] && LIBFLATARRAY_ELEM(24, L49) == v[24] && LIBFLATARRAY_ELEM(25, L49) == v[25] && LIBFLATARRAY_ELEM(26, L49) == v[26] && LIBFLATARRAY_ELEM(27, L49) == v[27] && LIBFLATARRAY_ELEM(28, L49) == v[28] && LIBFLATARRAY_ELEM(29, L49) == v[29] && LIBFLATARRAY_ELEM(30, L49) == v[30] && LIBFLATARRAY_ELEM(31, L49) == v[31] && LIBFLATARRAY_ELEM(32, L49) == v[32] && LIBFLATARRAY_ELEM(33, L49) == v[33] && LIBFLATARRAY_ELEM(34, L49) == v[34] && LIBFLATARRAY_ELEM(35, L49) == v[35] && LIBFLATARRAY_ELEM(36, L49) == v[36] && LIBFLATARRAY_ELEM(37, L49) == v[37] && LIBFLATARRAY_ELEM(38, L49) == v[38] && LIBFLATARRAY_ELEM(39, L49) == v[39] && LIBFLATARRAY_ELEM(40, L49) == v[40] && LIBFLATARRAY_ELEM(41, L49) == v[41] && LIBFLATARRAY_ELEM(42, L49) == v[42] && LIBFLATARRAY_ELEM(43, L49) == v[43] && LIBFLATARRAY_ELEM(44, L49) == v[44] && LIBFLATARRAY_ELEM(45, L49) == v[45] && LIBFLATARRAY_ELEM(46, L49) == v[46] && LIBFLATARRAY_ELEM(47, L49) == v[47] && LIBFLATARRAY_ELEM(48, L49) == v[48], "element of a list");
    vf_check(LIBFLATARRAY_ELEM(0, L50) == v[0] && LIBFLATARRAY_ELEM(1, L50) == v[1] && LIBFLATARRAY_ELEM(2, L50) == v[2] && LIBFLATARRAY_ELEM(3, L50) == v[3] && LIBFLATARRAY_ELEM(4, L50) == v[4] && LIBFLATARRAY_ELEM(5, L50) == v[5] && LIBFLATARRAY_ELEM(6, L50) == v[6] && LIBFLATARRAY_ELEM(7, L50) == v[7] && LIBFLATARRAY_ELEM(8, L50) == v[8] && LIBFLATARRAY_ELEM(9, L50) == v[9] && LIBFLATARRAY_ELEM(10, L50) == v[10] && LIBFLATARRAY_ELEM(11, L50) == v[11] && LIBFLATARRAY_ELEM(12, L50) == v[12] && LIBFLATARRAY_ELEM(13, L50) == v[13] && LIBFLATARRAY_ELEM(14, L50) == v[14] && LIBFLATARRAY_ELEM(15, L50) == v[15] && LIBFLATARRAY_ELEM(16, L50) == v[16] && LIBFLATARRAY_ELEM(17, L50) == v[17] && LIBFLATARRAY_ELEM(18, L50) == v[18] && LIBFLATARRAY_ELEM(19, L50) == v[19] && LIBFLATARRAY_ELEM(20, L50) == v[20] && LIBFLATARRAY_ELEM(21, L50) == v[21] && LIBFLATARRAY_ELEM(22, L50) == v[22] && LIBFLATARRAY_ELEM(23, L50) == v[23] && LIBFLATARRAY_ELEM(24, L50) == v[24] && LIBFLATARRAY_ELEM(25, L50) == v[25] && LIBFLATARRAY_ELEM(26, L50) == v[26] && LIBFLATARRAY_ELEM(27, L50) == v[27] && LIBFLATARRAY_ELEM(28, L50) == v[28] && LIBFLATARRAY_ELEM(29, L50) == v[29] && LIBFLATARRAY_ELEM(30, L50) == v[30] && LIBFLATARRAY_ELEM(31, L50) == v[31] && LIBFLATARRAY_ELEM(32, L50) == v[32] && LIBFLATARRAY_ELEM(33, L50) == v[33] && LIBFLATARRAY_ELEM(34, L50) == v[34] && LIBFLATARRAY_ELEM(35, L50) == v[35] && LIBFLATARRAY_ELEM(36, L50) == v[36] && LIBFLATARRAY_ELEM(37, L50) == v[37] && LIBFLATARRAY_ELEM(38, L50) == v[38] && LIBFLATARRAY_ELEM(39, L50) == v[39] && LIBFLATARRAY_ELEM(40, L50) == v[40] && LIBFLATARRAY_ELEM(41, L50) == v[41] && LIBFLATARRAY_ELEM(42, L50) == v[42] && LIBFLATARRAY_ELEM(43, L50) == v[43] && LIBFLATARRAY_ELEM(44, L50) == v[44] && LIBFLATARRAY_ELEM(45, L50) == v[45] && LIBFLATARRAY_ELEM(46, L50) == v[46] && LIBFLATARRAY_ELEM(47, L50) == v[47] && LIBFLATARRAY_ELEM(48, L50) == v[48] && LIBFLATARRAY_ELEM(49, L50) == v[49], "element of a list");
    vf_reach("done");
}

VF_ENTRY(list_shorter)
{
    vf_check(LIBFLATARRAY_IF_SHORTER(L1, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L1, 2, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 3, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 4, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 5, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 6, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 7, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 8, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 9, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 10, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 11, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 12, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 13, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 14, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 15, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 16, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 17, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 18, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 19, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 20, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 21, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 22, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 23, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 24, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L1, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L2, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L2, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L2, 3, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 4, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 5, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 6, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 7, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 8, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 9, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 10, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 11, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 12, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 13, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 14, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 15, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 16, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 17, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 18, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 19, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 20, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 21, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 22, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 23, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 24, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L2, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L3, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L3, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L3, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L3, 4, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 5, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 6, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 7, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 8, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 9, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 10, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 11, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 12, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 13, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 14, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 15, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 16, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 17, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 18, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 19, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 20, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 21, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 22, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 23, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 24, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L3, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L4, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L4, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L4, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L4, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L4, 5, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 6, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 7, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 8, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 9, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 10, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 11, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 12, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 13, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 14, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 15, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 16, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 17, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 18, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 19, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 20, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 21, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 22, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 23, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 24, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L4, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L5, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L5, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L5, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L5, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L5, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L5, 6, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 7, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 8, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 9, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 10, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 11, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 12, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 13, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 14, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 15, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 16, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 17, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 18, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 19, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 20, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 21, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 22, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 23, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 24, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L5, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L6, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L6, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L6, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L6, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L6, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L6, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L6, 7, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 8, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 9, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 10, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 11, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 12, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 13, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 14, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 15, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 16, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 17, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 18, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 19, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 20, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 21, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 22, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 23, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 24, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L6, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L7, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L7, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L7, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L7, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L7, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L7, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L7, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L7, 8, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 9, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 10, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 11, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 12, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 13, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 14, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 15, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 16, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 17, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 18, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 19, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 20, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 21, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 22, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 23, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 24, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L7, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L8, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L8, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L8, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L8, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L8, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L8, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L8, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L8, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L8, 9, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 10, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 11, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 12, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 13, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 14, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 15, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 16, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 17, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 18, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 19, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 20, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 21, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 22, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 23, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 24, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L8, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L9, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L9, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L9, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L9, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L9, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L9, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L9, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L9, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L9, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L9, 10, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 11, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 12, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 13, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 14, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 15, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 16, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 17, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 18, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 19, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 20, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 21, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 22, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 23, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 24, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L9, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L10, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L10, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L10, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L10, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L10, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L10, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L10, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L10, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L10, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L10, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L10, 11, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 12, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 13, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 14, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 15, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 16, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 17, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 18, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 19, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 20, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 21, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 22, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 23, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 24, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L10, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L11, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L11, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L11, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L11, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L11, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L11, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L11, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L11, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L11, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L11, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L11, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L11, 12, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 13, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 14, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 15, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 16, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 17, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 18, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 19, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 20, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 21, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 22, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 23, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 24, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L11, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L12, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L12, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L12, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L12, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L12, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L12, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L12, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L12, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L12, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L12, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L12, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L12, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L12, 13, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 14, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 15, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 16, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 17, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 18, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 19, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 20, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 21, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 22, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 23, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 24, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L12, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L13, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L13, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L13, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L13, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L13, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L13, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L13, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L13, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L13, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L13, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L13, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L13, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L13, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L13, 14, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 15, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 16, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 17, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 18, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 19, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 20, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 21, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 22, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 23, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 24, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L13, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L14, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L14, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L14, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L14, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L14, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L14, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L14, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L14, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L14, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L14, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L14, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L14, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L14, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L14, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L14, 15, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 16, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 17, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 18, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 19, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 20, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 21, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 22, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 23, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 24, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L14, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L15, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L15, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L15, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L15, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L15, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L15, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L15, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L15, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L15, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L15, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L15, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L15, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L15, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L15, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L15, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L15, 16, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 17, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 18, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 19, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 20, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 21, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 22, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 23, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 24, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L15, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L16, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L16, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L16, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L16, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L16, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L16, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L16, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L16, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L16, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L16, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L16, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L16, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L16, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L16, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L16, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L16, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L16, 17, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 18, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 19, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 20, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 21, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 22, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 23, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 24, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L16, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L17, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L17, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L17, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L17, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L17, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L17, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L17, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L17, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L17, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L17, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L17, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L17, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L17, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L17, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L17, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L17, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L17, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L17, 18, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 19, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 20, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 21, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 22, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 23, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 24, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L17, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L18, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L18, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L18, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L18, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L18, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L18, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L18, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L18, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L18, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L18, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L18, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L18, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L18, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L18, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L18, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L18, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L18, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L18, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L18, 19, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 20, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 21, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 22, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 23, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 24, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L18, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L19, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L19, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L19, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L19, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L19, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L19, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L19, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L19, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L19, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L19, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L19, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L19, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L19, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L19, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L19, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L19, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L19, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L19, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L19, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L19, 20, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 21, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 22, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 23, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 24, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L19, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L20, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L20, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L20, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L20, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L20, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L20, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L20, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L20, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L20, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L20, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L20, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L20, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L20, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L20, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L20, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L20, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L20, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L20, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L20, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L20, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L20, 21, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 22, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 23, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 24, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L20, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L21, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L21, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L21, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L21, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L21, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L21, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L21, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L21, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L21, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L21, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L21, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L21, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L21, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L21, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L21, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L21, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L21, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L21, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L21, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L21, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L21, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L21, 22, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 23, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 24, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L21, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L22, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L22, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L22, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L22, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L22, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L22, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L22, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L22, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L22, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L22, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L22, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L22, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L22, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L22, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L22, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L22, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L22, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L22, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L22, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L22, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L22, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L22, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L22, 23, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 24, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L22, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L23, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L23, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L23, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L23, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L23, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L23, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L23, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L23, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L23, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L23, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L23, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L23, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L23, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L23, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L23, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L23, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L23, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L23, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L23, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L23, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L23, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L23, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L23, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L23, 24, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L23, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L24, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L24, 25, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L24, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L25, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L25, 26, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L25, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L26, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L26, 27, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L26, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L26, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L26, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L26, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L26, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L26, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L26, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L26, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L26, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L26, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L26, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L26, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L26, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L26, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L26, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L26, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L26, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L26, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L26, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L26, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L26, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L26, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L26, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L27, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L27, 28, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L27, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L27, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L27, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L27, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L27, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L27, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L27, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L27, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L27, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L27, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L27, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L27, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L27, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L27, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L27, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L27, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L27, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L27, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L27, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L27, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L27, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L27, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L28, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 28, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L28, 29, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L28, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L28, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L28, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L28, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L28, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L28, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L28, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L28, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L28, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L28, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L28, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L28, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L28, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L28, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L28, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L28, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L28, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L28, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L28, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L28, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L28, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L29, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 28, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 29, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L29, 30, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L29, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L29, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L29, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L29, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L29, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L29, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L29, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L29, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L29, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L29, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L29, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L29, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L29, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L29, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L29, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L29, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L29, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L29, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L29, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L29, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L30, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 28, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 29, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 30, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L30, 31, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L30, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L30, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L30, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L30, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L30, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L30, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L30, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L30, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L30, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L30, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L30, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L30, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L30, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L30, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L30, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L30, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L30, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L30, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L30, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L31, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 28, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 29, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 30, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 31, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L31, 32, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L31, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L31, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L31, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L31, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L31, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L31, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L31, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L31, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L31, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L31, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L31, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L31, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L31, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L31, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L31, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L31, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L31, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L31, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L32, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 28, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 29, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 30, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 31, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 32, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L32, 33, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L32, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L32, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L32, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L32, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L32, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L32, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L32, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L32, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L32, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L32, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L32, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L32, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L32, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L32, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L32, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L32, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L32, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L33, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 28, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 29, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 30, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 31, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 32, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 33, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L33, 34, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L33, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L33, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L33, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L33, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L33, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L33, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L33, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L33, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L33, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L33, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L33, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L33, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L33, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L33, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L33, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L33, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L34, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 28, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 29, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 30, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 31, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 32, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 33, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 34, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L34, 35, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L34, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L34, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L34, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L34, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L34, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L34, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L34, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L34, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L34, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L34, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L34, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L34, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L34, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L34, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L34, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L35, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 28, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 29, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 30, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 31, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 32, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 33, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 34, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 35, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L35, 36, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L35, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L35, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L35, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L35, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L35, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L35, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L35, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L35, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L35, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L35, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L35, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L35, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L35, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L35, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L36, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 28, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 29, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 30, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 31, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 32, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 33, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 34, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 35, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 36, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L36, 37, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L36, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L36, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L36, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L36, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L36, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L36, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L36, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L36, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L36, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L36, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L36, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L36, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L36, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L37, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 28, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 29, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 30, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 31, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 32, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 33, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 34, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 35, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 36, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 37, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L37, 38, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L37, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L37, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L37, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L37, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L37, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L37, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L37, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L37, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L37, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L37, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L37, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L37, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L38, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 28, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 29, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 30, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 31, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 32, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 33, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 34, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 35, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 36, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 37, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 38, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L38, 39, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L38, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L38, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L38, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L38, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L38, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L38, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L38, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L38, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L38, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L38, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L38, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L39, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 28, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 29, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 30, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 31, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 32, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 33, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 34, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 35, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 36, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 37, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 38, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 39, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L39, 40, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L39, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L39, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L39, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L39, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L39, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L39, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L39, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L39, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L39, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L39, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L40, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 28, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 29, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 30, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 31, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 32, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 33, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 34, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 35, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 36, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 37, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 38, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 39, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 40, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L40, 41, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L40, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L40, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L40, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L40, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L40, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L40, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L40, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L40, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L40, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L41, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 28, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 29, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 30, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 31, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 32, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 33, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 34, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 35, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 36, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 37, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 38, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 39, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 40, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 41, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L41, 42, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L41, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L41, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L41, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L41, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L41, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L41, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L41, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L41, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L42, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 28, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 29, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 30, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 31, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 32, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 33, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 34, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 35, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 36, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 37, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 38, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 39, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 40, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 41, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 42, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L42, 43, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L42, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L42, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L42, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L42, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L42, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L42, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L42, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L43, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 28, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 29, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 30, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 31, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 32, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 33, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 34, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 35, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 36, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 37, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 38, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 39, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 40, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 41, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 42, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 43, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L43, 44, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L43, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L43, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L43, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L43, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L43, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L43, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L44, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 28, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 29, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 30, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 31, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 32, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 33, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 34, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 35, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 36, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 37, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 38, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 39, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 40, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 41, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 42, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 43, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 44, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L44, 45, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L44, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L44, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L44, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L44, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L44, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L45, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 28, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 29, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 30, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 31, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 32, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 33, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 34, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 35, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 36, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 37, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 38, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 39, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 40, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 41, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 42, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 43, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 44, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 45, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L45, 46, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L45, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L45, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L45, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L45, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L46, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 28, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 29, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 30, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 31, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 32, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 33, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 34, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 35, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 36, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 37, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 38, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 39, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 40, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 41, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 42, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 43, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 44, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 45, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 46, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L46, 47, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L46, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L46, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L46, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L47, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 28, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 29, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 30, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 31, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 32, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 33, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 34, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 35, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 36, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 37, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 38, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 39, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 40, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 41, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 42, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 43, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 44, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 45, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 46, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 47, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L47, 48, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L47, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L47, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L48, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 28, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 29, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 30, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 31, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 32, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 33, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 34, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 35, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 36, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 37, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 38, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 39, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 40, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 41, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 42, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 43, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 44, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 45, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 46, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 47, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 48, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L48, 49, 1, 2) == 1 && LIBFLATARRAY_IF_SHORTER(L48, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L49, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 28, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 29, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 30, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 31, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 32, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 33, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 34, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 35, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 36, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 37, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 38, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 39, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 40, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 41, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 42, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 43, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 44, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 45, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 46, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 47, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 48, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 49, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L49, 50, 1, 2) == 1, "comparison of lengths");
    vf_check(LIBFLATARRAY_IF_SHORTER(L50, 1, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 2, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 3, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 4, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 5, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 6, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 7, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 8, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 9, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 10, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 11, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 12, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 13, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 14, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 15, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 16, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 17, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 18, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 19, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 20, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 21, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 22, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 23, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 24, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 25, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 26, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 27, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 28, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 29, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 30, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 31, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 32, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 33, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 34, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 35, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 36, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 37, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 38, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 39, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 40, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 41, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 42, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 43, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 44, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 45, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 46, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 47, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 48, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 49, 1, 2) == 2 && LIBFLATARRAY_IF_SHORTER(L50, 50, 1, 2) == 2, "comparison of lengths");
    vf_reach("done");
}

class Wide30
{
public:
    char m0;
    short m1;
    long m2;
    int m3;
    double m4;
    char m5;
    short m6;
    long m7;
    int m8;
    double m9;
    char m10[4];
    short m11;
    long m12;
    int m13;
    double m14;
    char m15;
    short m16;
    long m17;
    int m18;
    double m19;
    char m20;
    short m21[3];
    long m22;
    int m23;
    double m24;
    char m25;
    short m26;
    long m27;
    int m28;
    double m29;
};
LIBFLATARRAY_REGISTER_SOA(Wide30,
    ((char)(m0))
    ((short)(m1))
    ((long)(m2))
    ((int)(m3))
    ((double)(m4))
    ((char)(m5))
    ((short)(m6))
    ((long)(m7))
    ((int)(m8))
    ((double)(m9))
    ((char)(m10)(4))
    ((short)(m11))
    ((long)(m12))
    ((int)(m13))
    ((double)(m14))
    ((char)(m15))
    ((short)(m16))
    ((long)(m17))
    ((int)(m18))
    ((double)(m19))
    ((char)(m20))
    ((short)(m21)(3))
    ((long)(m22))
    ((int)(m23))
    ((double)(m24))
    ((char)(m25))
    ((short)(m26))
    ((long)(m27))
    ((int)(m28))
    ((double)(m29)))

VF_ENTRY(wide_members_30)
{
    std::size_t base = vf_u64("base");
    vf_assume(base < (std::size_t(1) << 46));
    long idx = long(vf_index("idx", 0, (1 << 30) - 1));
    const long prod = 2000L * 1000 * 600;
    soa_accessor<Wide30, 2000, 1000, 600, 0> a(reinterpret_cast<char*>(base), idx);
    const_soa_accessor<Wide30, 2000, 1000, 600, 0> b(reinterpret_cast<char*>(base), idx);
    soa_accessor_light<Wide30, 2000, 1000, 600, 0> c(reinterpret_cast<char*>(base), idx);
    vf_check(reinterpret_cast<std::size_t>(&a.m0()) == base + prod * 0L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m0()) == base + prod * 0L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m0()) == base + prod * 0L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m0) == 0, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m1()) == base + prod * 1L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m1()) == base + prod * 1L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m1()) == base + prod * 1L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m1) == 1, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m2()) == base + prod * 3L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m2()) == base + prod * 3L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m2()) == base + prod * 3L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m2) == 3, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m3()) == base + prod * 11L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m3()) == base + prod * 11L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m3()) == base + prod * 11L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m3) == 11, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m4()) == base + prod * 15L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m4()) == base + prod * 15L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m4()) == base + prod * 15L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m4) == 15, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m5()) == base + prod * 23L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m5()) == base + prod * 23L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m5()) == base + prod * 23L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m5) == 23, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m6()) == base + prod * 24L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m6()) == base + prod * 24L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m6()) == base + prod * 24L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m6) == 24, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m7()) == base + prod * 26L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m7()) == base + prod * 26L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m7()) == base + prod * 26L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m7) == 26, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m8()) == base + prod * 34L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m8()) == base + prod * 34L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m8()) == base + prod * 34L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m8) == 34, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m9()) == base + prod * 38L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m9()) == base + prod * 38L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m9()) == base + prod * 38L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m9) == 38, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m10<0>()) == base + prod * 46L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m10<0>()) == base + prod * 46L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m10<0>()) == base + prod * 46L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m10<1>()) == base + prod * 47L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m10<1>()) == base + prod * 47L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m10<1>()) == base + prod * 47L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m10<2>()) == base + prod * 48L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m10<2>()) == base + prod * 48L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m10<2>()) == base + prod * 48L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m10<3>()) == base + prod * 49L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m10<3>()) == base + prod * 49L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m10<3>()) == base + prod * 49L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m10) == 46, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m11()) == base + prod * 50L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m11()) == base + prod * 50L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m11()) == base + prod * 50L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m11) == 50, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m12()) == base + prod * 52L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m12()) == base + prod * 52L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m12()) == base + prod * 52L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m12) == 52, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m13()) == base + prod * 60L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m13()) == base + prod * 60L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m13()) == base + prod * 60L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m13) == 60, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m14()) == base + prod * 64L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m14()) == base + prod * 64L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m14()) == base + prod * 64L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m14) == 64, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m15()) == base + prod * 72L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m15()) == base + prod * 72L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m15()) == base + prod * 72L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m15) == 72, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m16()) == base + prod * 73L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m16()) == base + prod * 73L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m16()) == base + prod * 73L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m16) == 73, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m17()) == base + prod * 75L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m17()) == base + prod * 75L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m17()) == base + prod * 75L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m17) == 75, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m18()) == base + prod * 83L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m18()) == base + prod * 83L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m18()) == base + prod * 83L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m18) == 83, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m19()) == base + prod * 87L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m19()) == base + prod * 87L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m19()) == base + prod * 87L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m19) == 87, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m20()) == base + prod * 95L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m20()) == base + prod * 95L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m20()) == base + prod * 95L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m20) == 95, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m21<0>()) == base + prod * 96L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m21<0>()) == base + prod * 96L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m21<0>()) == base + prod * 96L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m21<1>()) == base + prod * 98L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m21<1>()) == base + prod * 98L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m21<1>()) == base + prod * 98L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m21<2>()) == base + prod * 100L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m21<2>()) == base + prod * 100L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m21<2>()) == base + prod * 100L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m21) == 96, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m22()) == base + prod * 102L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m22()) == base + prod * 102L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m22()) == base + prod * 102L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m22) == 102, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m23()) == base + prod * 110L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m23()) == base + prod * 110L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m23()) == base + prod * 110L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m23) == 110, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m24()) == base + prod * 114L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m24()) == base + prod * 114L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m24()) == base + prod * 114L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m24) == 114, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m25()) == base + prod * 122L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m25()) == base + prod * 122L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m25()) == base + prod * 122L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m25) == 122, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m26()) == base + prod * 123L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m26()) == base + prod * 123L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m26()) == base + prod * 123L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m26) == 123, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m27()) == base + prod * 125L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m27()) == base + prod * 125L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m27()) == base + prod * 125L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m27) == 125, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m28()) == base + prod * 133L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m28()) == base + prod * 133L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m28()) == base + prod * 133L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m28) == 133, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m29()) == base + prod * 137L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m29()) == base + prod * 137L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m29()) == base + prod * 137L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide30::m29) == 137, "offset of a member");
    vf_check(number_of_members<Wide30>::VALUE == 30 && aggregated_member_size<Wide30>::VALUE == 145, "number and size of the members");
    vf_reach("done");
}

class Wide49
{
public:
    char m0;
    short m1;
    long m2;
    int m3;
    double m4;
    char m5;
    short m6;
    long m7;
    int m8;
    double m9;
    char m10[4];
    short m11;
    long m12;
    int m13;
    double m14;
    char m15;
    short m16;
    long m17;
    int m18;
    double m19;
    char m20;
    short m21[3];
    long m22;
    int m23;
    double m24;
    char m25;
    short m26;
    long m27;
    int m28;
    double m29;
    char m30;
    short m31;
    long m32[2];
    int m33;
    double m34;
    char m35;
    short m36;
    long m37;
    int m38;
    double m39;
    char m40;
    short m41;
    long m42;
    int m43[5];
    double m44;
    char m45;
    short m46;
    long m47;
    int m48;
};
LIBFLATARRAY_REGISTER_SOA(Wide49,
    ((char)(m0))
    ((short)(m1))
    ((long)(m2))
    ((int)(m3))
    ((double)(m4))
    ((char)(m5))
    ((short)(m6))
    ((long)(m7))
    ((int)(m8))
    ((double)(m9))
    ((char)(m10)(4))
    ((short)(m11))
    ((long)(m12))
    ((int)(m13))
    ((double)(m14))
    ((char)(m15))
    ((short)(m16))
    ((long)(m17))
    ((int)(m18))
    ((double)(m19))
    ((char)(m20))
    ((short)(m21)(3))
    ((long)(m22))
    ((int)(m23))
    ((double)(m24))
    ((char)(m25))
    ((short)(m26))
    ((long)(m27))
    ((int)(m28))
    ((double)(m29))
    ((char)(m30))
    ((short)(m31))
    ((long)(m32)(2))
    ((int)(m33))
    ((double)(m34))
    ((char)(m35))
    ((short)(m36))
    ((long)(m37))
    ((int)(m38))
    ((double)(m39))
    ((char)(m40))
    ((short)(m41))
    ((long)(m42))
    ((int)(m43)(5))
    ((double)(m44))
    ((char)(m45))
    ((short)(m46))
    ((long)(m47))
    ((int)(m48)))

VF_ENTRY(wide_members_49)
{
    std::size_t base = vf_u64("base");
    vf_assume(base < (std::size_t(1) << 46));
    long idx = long(vf_index("idx", 0, (1 << 30) - 1));
    const long prod = 2000L * 1000 * 600;
    soa_accessor<Wide49, 2000, 1000, 600, 0> a(reinterpret_cast<char*>(base), idx);
    const_soa_accessor<Wide49, 2000, 1000, 600, 0> b(reinterpret_cast<char*>(base), idx);
    soa_accessor_light<Wide49, 2000, 1000, 600, 0> c(reinterpret_cast<char*>(base), idx);
    vf_check(reinterpret_cast<std::size_t>(&a.m0()) == base + prod * 0L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m0()) == base + prod * 0L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m0()) == base + prod * 0L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m0) == 0, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m1()) == base + prod * 1L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m1()) == base + prod * 1L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m1()) == base + prod * 1L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m1) == 1, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m2()) == base + prod * 3L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m2()) == base + prod * 3L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m2()) == base + prod * 3L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m2) == 3, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m3()) == base + prod * 11L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m3()) == base + prod * 11L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m3()) == base + prod * 11L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m3) == 11, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m4()) == base + prod * 15L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m4()) == base + prod * 15L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m4()) == base + prod * 15L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m4) == 15, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m5()) == base + prod * 23L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m5()) == base + prod * 23L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m5()) == base + prod * 23L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m5) == 23, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m6()) == base + prod * 24L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m6()) == base + prod * 24L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m6()) == base + prod * 24L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m6) == 24, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m7()) == base + prod * 26L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m7()) == base + prod * 26L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m7()) == base + prod * 26L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m7) == 26, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m8()) == base + prod * 34L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m8()) == base + prod * 34L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m8()) == base + prod * 34L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m8) == 34, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m9()) == base + prod * 38L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m9()) == base + prod * 38L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m9()) == base + prod * 38L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m9) == 38, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m10<0>()) == base + prod * 46L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m10<0>()) == base + prod * 46L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m10<0>()) == base + prod * 46L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m10<1>()) == base + prod * 47L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m10<1>()) == base + prod * 47L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m10<1>()) == base + prod * 47L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m10<2>()) == base + prod * 48L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m10<2>()) == base + prod * 48L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m10<2>()) == base + prod * 48L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m10<3>()) == base + prod * 49L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m10<3>()) == base + prod * 49L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m10<3>()) == base + prod * 49L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m10) == 46, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m11()) == base + prod * 50L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m11()) == base + prod * 50L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m11()) == base + prod * 50L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m11) == 50, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m12()) == base + prod * 52L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m12()) == base + prod * 52L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m12()) == base + prod * 52L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m12) == 52, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m13()) == base + prod * 60L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m13()) == base + prod * 60L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m13()) == base + prod * 60L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m13) == 60, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m14()) == base + prod * 64L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m14()) == base + prod * 64L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m14()) == base + prod * 64L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m14) == 64, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m15()) == base + prod * 72L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m15()) == base + prod * 72L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m15()) == base + prod * 72L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m15) == 72, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m16()) == base + prod * 73L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m16()) == base + prod * 73L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m16()) == base + prod * 73L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m16) == 73, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m17()) == base + prod * 75L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m17()) == base + prod * 75L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m17()) == base + prod * 75L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m17) == 75, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m18()) == base + prod * 83L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m18()) == base + prod * 83L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m18()) == base + prod * 83L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m18) == 83, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m19()) == base + prod * 87L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m19()) == base + prod * 87L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m19()) == base + prod * 87L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m19) == 87, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m20()) == base + prod * 95L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m20()) == base + prod * 95L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m20()) == base + prod * 95L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m20) == 95, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m21<0>()) == base + prod * 96L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m21<0>()) == base + prod * 96L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m21<0>()) == base + prod * 96L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m21<1>()) == base + prod * 98L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m21<1>()) == base + prod * 98L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m21<1>()) == base + prod * 98L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m21<2>()) == base + prod * 100L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m21<2>()) == base + prod * 100L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m21<2>()) == base + prod * 100L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m21) == 96, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m22()) == base + prod * 102L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m22()) == base + prod * 102L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m22()) == base + prod * 102L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m22) == 102, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m23()) == base + prod * 110L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m23()) == base + prod * 110L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m23()) == base + prod * 110L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m23) == 110, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m24()) == base + prod * 114L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m24()) == base + prod * 114L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m24()) == base + prod * 114L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m24) == 114, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m25()) == base + prod * 122L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m25()) == base + prod * 122L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m25()) == base + prod * 122L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m25) == 122, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m26()) == base + prod * 123L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m26()) == base + prod * 123L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m26()) == base + prod * 123L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m26) == 123, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m27()) == base + prod * 125L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m27()) == base + prod * 125L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m27()) == base + prod * 125L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m27) == 125, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m28()) == base + prod * 133L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m28()) == base + prod * 133L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m28()) == base + prod * 133L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m28) == 133, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m29()) == base + prod * 137L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m29()) == base + prod * 137L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m29()) == base + prod * 137L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m29) == 137, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m30()) == base + prod * 145L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m30()) == base + prod * 145L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m30()) == base + prod * 145L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m30) == 145, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m31()) == base + prod * 146L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m31()) == base + prod * 146L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m31()) == base + prod * 146L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m31) == 146, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m32<0>()) == base + prod * 148L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m32<0>()) == base + prod * 148L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m32<0>()) == base + prod * 148L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m32<1>()) == base + prod * 156L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m32<1>()) == base + prod * 156L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m32<1>()) == base + prod * 156L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m32) == 148, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m33()) == base + prod * 164L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m33()) == base + prod * 164L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m33()) == base + prod * 164L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m33) == 164, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m34()) == base + prod * 168L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m34()) == base + prod * 168L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m34()) == base + prod * 168L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m34) == 168, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m35()) == base + prod * 176L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m35()) == base + prod * 176L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m35()) == base + prod * 176L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m35) == 176, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m36()) == base + prod * 177L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m36()) == base + prod * 177L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m36()) == base + prod * 177L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m36) == 177, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m37()) == base + prod * 179L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m37()) == base + prod * 179L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m37()) == base + prod * 179L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m37) == 179, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m38()) == base + prod * 187L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m38()) == base + prod * 187L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m38()) == base + prod * 187L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m38) == 187, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m39()) == base + prod * 191L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m39()) == base + prod * 191L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m39()) == base + prod * 191L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m39) == 191, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m40()) == base + prod * 199L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m40()) == base + prod * 199L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m40()) == base + prod * 199L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m40) == 199, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m41()) == base + prod * 200L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m41()) == base + prod * 200L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m41()) == base + prod * 200L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m41) == 200, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m42()) == base + prod * 202L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m42()) == base + prod * 202L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m42()) == base + prod * 202L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m42) == 202, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m43<0>()) == base + prod * 210L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m43<0>()) == base + prod * 210L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m43<0>()) == base + prod * 210L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m43<1>()) == base + prod * 214L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m43<1>()) == base + prod * 214L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m43<1>()) == base + prod * 214L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m43<2>()) == base + prod * 218L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m43<2>()) == base + prod * 218L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m43<2>()) == base + prod * 218L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m43<3>()) == base + prod * 222L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m43<3>()) == base + prod * 222L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m43<3>()) == base + prod * 222L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m43<4>()) == base + prod * 226L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m43<4>()) == base + prod * 226L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m43<4>()) == base + prod * 226L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m43) == 210, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m44()) == base + prod * 230L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m44()) == base + prod * 230L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m44()) == base + prod * 230L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m44) == 230, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m45()) == base + prod * 238L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m45()) == base + prod * 238L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m45()) == base + prod * 238L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m45) == 238, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m46()) == base + prod * 239L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m46()) == base + prod * 239L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m46()) == base + prod * 239L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m46) == 239, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m47()) == base + prod * 241L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m47()) == base + prod * 241L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m47()) == base + prod * 241L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m47) == 241, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m48()) == base + prod * 249L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m48()) == base + prod * 249L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m48()) == base + prod * 249L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide49::m48) == 249, "offset of a member");
    vf_check(number_of_members<Wide49>::VALUE == 49 && aggregated_member_size<Wide49>::VALUE == 253, "number and size of the members");
    vf_reach("done");
}

class Wide50
{
public:
    char m0;
    short m1;
    long m2;
    int m3;
    double m4;
    char m5;
    short m6;
    long m7;
    int m8;
    double m9;
    char m10[4];
    short m11;
    long m12;
    int m13;
    double m14;
    char m15;
    short m16;
    long m17;
    int m18;
    double m19;
    char m20;
    short m21[3];
    long m22;
    int m23;
    double m24;
    char m25;
    short m26;
    long m27;
    int m28;
    double m29;
    char m30;
    short m31;
    long m32[2];
    int m33;
    double m34;
    char m35;
    short m36;
    long m37;
    int m38;
    double m39;
    char m40;
    short m41;
    long m42;
    int m43[5];
    double m44;
    char m45;
    short m46;
    long m47;
    int m48;
    double m49;
};
LIBFLATARRAY_REGISTER_SOA(Wide50,
    ((char)(m0))
    ((short)(m1))
    ((long)(m2))
    ((int)(m3))
    ((double)(m4))
    ((char)(m5))
    ((short)(m6))
    ((long)(m7))
    ((int)(m8))
    ((double)(m9))
    ((char)(m10)(4))
    ((short)(m11))
    ((long)(m12))
    ((int)(m13))
    ((double)(m14))
    ((char)(m15))
    ((short)(m16))
    ((long)(m17))
    ((int)(m18))
    ((double)(m19))
    ((char)(m20))
    ((short)(m21)(3))
    ((long)(m22))
    ((int)(m23))
    ((double)(m24))
    ((char)(m25))
    ((short)(m26))
    ((long)(m27))
    ((int)(m28))
    ((double)(m29))
    ((char)(m30))
    ((short)(m31))
    ((long)(m32)(2))
    ((int)(m33))
    ((double)(m34))
    ((char)(m35))
    ((short)(m36))
    ((long)(m37))
    ((int)(m38))
    ((double)(m39))
    ((char)(m40))
    ((short)(m41))
    ((long)(m42))
    ((int)(m43)(5))
    ((double)(m44))
    ((char)(m45))
    ((short)(m46))
    ((long)(m47))
    ((int)(m48))
    ((double)(m49)))

VF_ENTRY(wide_members_50)
{
    std::size_t base = vf_u64("base");
    vf_assume(base < (std::size_t(1) << 46));
    long idx = long(vf_index("idx", 0, (1 << 30) - 1));
    const long prod = 2000L * 1000 * 600;
    soa_accessor<Wide50, 2000, 1000, 600, 0> a(reinterpret_cast<char*>(base), idx);
    const_soa_accessor<Wide50, 2000, 1000, 600, 0> b(reinterpret_cast<char*>(base), idx);
    soa_accessor_light<Wide50, 2000, 1000, 600, 0> c(reinterpret_cast<char*>(base), idx);
    vf_check(reinterpret_cast<std::size_t>(&a.m0()) == base + prod * 0L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m0()) == base + prod * 0L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m0()) == base + prod * 0L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m0) == 0, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m1()) == base + prod * 1L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m1()) == base + prod * 1L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m1()) == base + prod * 1L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m1) == 1, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m2()) == base + prod * 3L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m2()) == base + prod * 3L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m2()) == base + prod * 3L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m2) == 3, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m3()) == base + prod * 11L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m3()) == base + prod * 11L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m3()) == base + prod * 11L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m3) == 11, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m4()) == base + prod * 15L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m4()) == base + prod * 15L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m4()) == base + prod * 15L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m4) == 15, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m5()) == base + prod * 23L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m5()) == base + prod * 23L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m5()) == base + prod * 23L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m5) == 23, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m6()) == base + prod * 24L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m6()) == base + prod * 24L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m6()) == base + prod * 24L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m6) == 24, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m7()) == base + prod * 26L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m7()) == base + prod * 26L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m7()) == base + prod * 26L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m7) == 26, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m8()) == base + prod * 34L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m8()) == base + prod * 34L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m8()) == base + prod * 34L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m8) == 34, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m9()) == base + prod * 38L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m9()) == base + prod * 38L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m9()) == base + prod * 38L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m9) == 38, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m10<0>()) == base + prod * 46L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m10<0>()) == base + prod * 46L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m10<0>()) == base + prod * 46L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m10<1>()) == base + prod * 47L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m10<1>()) == base + prod * 47L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m10<1>()) == base + prod * 47L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m10<2>()) == base + prod * 48L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m10<2>()) == base + prod * 48L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m10<2>()) == base + prod * 48L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m10<3>()) == base + prod * 49L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m10<3>()) == base + prod * 49L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m10<3>()) == base + prod * 49L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m10) == 46, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m11()) == base + prod * 50L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m11()) == base + prod * 50L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m11()) == base + prod * 50L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m11) == 50, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m12()) == base + prod * 52L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m12()) == base + prod * 52L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m12()) == base + prod * 52L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m12) == 52, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m13()) == base + prod * 60L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m13()) == base + prod * 60L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m13()) == base + prod * 60L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m13) == 60, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m14()) == base + prod * 64L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m14()) == base + prod * 64L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m14()) == base + prod * 64L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m14) == 64, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m15()) == base + prod * 72L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m15()) == base + prod * 72L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m15()) == base + prod * 72L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m15) == 72, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m16()) == base + prod * 73L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m16()) == base + prod * 73L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m16()) == base + prod * 73L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m16) == 73, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m17()) == base + prod * 75L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m17()) == base + prod * 75L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m17()) == base + prod * 75L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m17) == 75, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m18()) == base + prod * 83L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m18()) == base + prod * 83L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m18()) == base + prod * 83L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m18) == 83, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m19()) == base + prod * 87L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m19()) == base + prod * 87L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m19()) == base + prod * 87L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m19) == 87, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m20()) == base + prod * 95L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m20()) == base + prod * 95L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m20()) == base + prod * 95L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m20) == 95, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m21<0>()) == base + prod * 96L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m21<0>()) == base + prod * 96L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m21<0>()) == base + prod * 96L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m21<1>()) == base + prod * 98L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m21<1>()) == base + prod * 98L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m21<1>()) == base + prod * 98L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m21<2>()) == base + prod * 100L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m21<2>()) == base + prod * 100L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m21<2>()) == base + prod * 100L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m21) == 96, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m22()) == base + prod * 102L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m22()) == base + prod * 102L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m22()) == base + prod * 102L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m22) == 102, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m23()) == base + prod * 110L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m23()) == base + prod * 110L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m23()) == base + prod * 110L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m23) == 110, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m24()) == base + prod * 114L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m24()) == base + prod * 114L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m24()) == base + prod * 114L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m24) == 114, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m25()) == base + prod * 122L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m25()) == base + prod * 122L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m25()) == base + prod * 122L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m25) == 122, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m26()) == base + prod * 123L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m26()) == base + prod * 123L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m26()) == base + prod * 123L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m26) == 123, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m27()) == base + prod * 125L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m27()) == base + prod * 125L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m27()) == base + prod * 125L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m27) == 125, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m28()) == base + prod * 133L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m28()) == base + prod * 133L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m28()) == base + prod * 133L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m28) == 133, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m29()) == base + prod * 137L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m29()) == base + prod * 137L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m29()) == base + prod * 137L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m29) == 137, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m30()) == base + prod * 145L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m30()) == base + prod * 145L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m30()) == base + prod * 145L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m30) == 145, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m31()) == base + prod * 146L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m31()) == base + prod * 146L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m31()) == base + prod * 146L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m31) == 146, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m32<0>()) == base + prod * 148L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m32<0>()) == base + prod * 148L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m32<0>()) == base + prod * 148L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m32<1>()) == base + prod * 156L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m32<1>()) == base + prod * 156L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m32<1>()) == base + prod * 156L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m32) == 148, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m33()) == base + prod * 164L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m33()) == base + prod * 164L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m33()) == base + prod * 164L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m33) == 164, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m34()) == base + prod * 168L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m34()) == base + prod * 168L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m34()) == base + prod * 168L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m34) == 168, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m35()) == base + prod * 176L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m35()) == base + prod * 176L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m35()) == base + prod * 176L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m35) == 176, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m36()) == base + prod * 177L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m36()) == base + prod * 177L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m36()) == base + prod * 177L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m36) == 177, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m37()) == base + prod * 179L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m37()) == base + prod * 179L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m37()) == base + prod * 179L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m37) == 179, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m38()) == base + prod * 187L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m38()) == base + prod * 187L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m38()) == base + prod * 187L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m38) == 187, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m39()) == base + prod * 191L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m39()) == base + prod * 191L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m39()) == base + prod * 191L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m39) == 191, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m40()) == base + prod * 199L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m40()) == base + prod * 199L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m40()) == base + prod * 199L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m40) == 199, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m41()) == base + prod * 200L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m41()) == base + prod * 200L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m41()) == base + prod * 200L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m41) == 200, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m42()) == base + prod * 202L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m42()) == base + prod * 202L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m42()) == base + prod * 202L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m42) == 202, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m43<0>()) == base + prod * 210L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m43<0>()) == base + prod * 210L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m43<0>()) == base + prod * 210L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m43<1>()) == base + prod * 214L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m43<1>()) == base + prod * 214L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m43<1>()) == base + prod * 214L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m43<2>()) == base + prod * 218L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m43<2>()) == base + prod * 218L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m43<2>()) == base + prod * 218L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m43<3>()) == base + prod * 222L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m43<3>()) == base + prod * 222L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m43<3>()) == base + prod * 222L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m43<4>()) == base + prod * 226L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m43<4>()) == base + prod * 226L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m43<4>()) == base + prod * 226L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m43) == 210, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m44()) == base + prod * 230L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m44()) == base + prod * 230L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m44()) == base + prod * 230L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m44) == 230, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m45()) == base + prod * 238L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m45()) == base + prod * 238L + idx * 1, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m45()) == base + prod * 238L + idx * 1, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m45) == 238, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m46()) == base + prod * 239L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m46()) == base + prod * 239L + idx * 2, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m46()) == base + prod * 239L + idx * 2, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m46) == 239, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m47()) == base + prod * 241L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m47()) == base + prod * 241L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m47()) == base + prod * 241L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m47) == 241, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m48()) == base + prod * 249L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m48()) == base + prod * 249L + idx * 4, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m48()) == base + prod * 249L + idx * 4, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m48) == 249, "offset of a member");
    vf_check(reinterpret_cast<std::size_t>(&a.m49()) == base + prod * 253L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&b.m49()) == base + prod * 253L + idx * 8, "address of a member");
    vf_check(reinterpret_cast<std::size_t>(&c.m49()) == base + prod * 253L + idx * 8, "address of a member");
    vf_check(member_ptr_to_offset()(&Wide50::m49) == 253, "offset of a member");
    vf_check(number_of_members<Wide50>::VALUE == 50 && aggregated_member_size<Wide50>::VALUE == 261, "number and size of the members");
    vf_reach("done");
}
