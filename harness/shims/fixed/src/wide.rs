/// 128x128 -> 256 bit multiplication (hi, lo)
#[inline]
pub fn mul_wide(a: u128, b: u128) -> (u128, u128) {
    const M: u128 = u64::MAX as u128;
    let (a1, a0) = (a >> 64, a & M);
    let (b1, b0) = (b >> 64, b & M);
    let p00 = a0 * b0;
    let p01 = a0 * b1;
    let p10 = a1 * b0;
    let p11 = a1 * b1;
    let mid = (p00 >> 64) + (p01 & M) + (p10 & M);
    let lo = (p00 & M) | (mid << 64);
    let hi = p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64);
    (hi, lo)
}

/// (hi:lo) / d with hi < d, so that the quotient fits 128 bits
pub fn div_wide(hi: u128, lo: u128, d: u128) -> u128 {
    if hi == 0 {
        return lo / d;
    }
    // Knuth D with 64 bit digits
    let s = d.leading_zeros();
    let d = d << s;
    let (hi, lo) = if s == 0 {
        (hi, lo)
    } else {
        ((hi << s) | (lo >> (128 - s)), lo << s)
    };
    const M: u128 = u64::MAX as u128;
    let (d1, d0) = (d >> 64, d & M);
    let step = |rem: u128, digit: u128| -> (u128, u128) {
        // (rem:digit) / d, rem < d
        let mut q = rem / d1;
        let mut r = rem % d1;
        while q > M || q * d0 > ((r << 64) | digit) {
            q -= 1;
            r += d1;
            if r > M {
                break;
            }
        }
        let new_rem = (rem << 64)
            .wrapping_add(digit)
            .wrapping_sub(q.wrapping_mul(d));
        (q, new_rem)
    };
    let (q1, r1) = step(hi, lo >> 64);
    let (q0, _) = step(r1, lo & M);
    (q1 << 64) | q0
}
