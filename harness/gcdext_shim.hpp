// libff's Fp inverse hands the modulus to mpn_gcdext with all n limbs; GMP requires a non-zero top limb.  That is a
// documented limit (modulus_is_valid()).  For tiny moduli stored in several limbs the harness trims the limbs first.
// Link with -Wl,--wrap=__gmpn_gcdext
#pragma once
#include <gmp.h>
extern "C" {
void sched_touch(const void *p, unsigned long n, bool write) __attribute__((weak)); // records the accesses when the scheduler is linked in
mp_size_t __real___gmpn_gcdext(mp_ptr gp, mp_ptr sp, mp_size_t *ssize, mp_ptr ap, mp_size_t an, mp_ptr bp, mp_size_t bn);
mp_size_t __wrap___gmpn_gcdext(mp_ptr gp, mp_ptr sp, mp_size_t *ssize, mp_ptr ap, mp_size_t an, mp_ptr bp, mp_size_t bn)
{
    if (sched_touch) { sched_touch(ap, an * 8, true); sched_touch(bp, bn * 8, true); sched_touch(gp, bn * 8, true); sched_touch(sp, (bn + 1) * 8, true); sched_touch(ssize, 8, true); }
    if (bn >= 1 && bp[bn - 1] != 0) return __real___gmpn_gcdext(gp, sp, ssize, ap, an, bp, bn);
    mp_limb_t a[32], b[32];
    mp_size_t m = an, k = bn;
    for (mp_size_t i = 0; i < an; i++) a[i] = ap[i];
    for (mp_size_t i = 0; i < bn; i++) b[i] = bp[i];
    while (k > 1 && b[k - 1] == 0) k--;
    while (m > k && a[m - 1] == 0) m--;
    while (m > 1 && a[m - 1] == 0) m--;
    if (m < k) { for (; m < k; m++) a[m] = 0; }
    for (mp_size_t i = 0; i < bn; i++) gp[i] = 0;
    mp_limb_t s[40] = {0};
    mp_size_t g = __real___gmpn_gcdext(gp, s, ssize, a, m, b, k);
    mp_size_t l = *ssize < 0 ? -*ssize : *ssize;
    for (mp_size_t i = 0; i <= bn; i++) sp[i] = i < l ? s[i] : 0;
    return g;
}
}
