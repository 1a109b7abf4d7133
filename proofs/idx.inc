=== raw
// ---- index arithmetic for slot-major buffers ----
pub proof fn idx_in(s: int, n: int, row: int, k: int)
    requires 0 <= s < k, 0 <= row < n,
    ensures 0 <= s * n + row < k * n, s * n + n <= k * n, 0 <= s * n,
{
    assert(s * n + n <= k * n) by (nonlinear_arith) requires s + 1 <= k, n >= 0;
    assert(0 <= s * n) by (nonlinear_arith) requires s >= 0, n >= 0;
}
pub proof fn idx_le(s: int, n: int, k: int)
    requires 0 <= s < k, 0 <= n,
    ensures 0 <= s * n, s * n + n <= k * n, (s + 1) * n == s * n + n,
{
    assert(s * n + n <= k * n) by (nonlinear_arith) requires s + 1 <= k, n >= 0;
    assert(0 <= s * n) by (nonlinear_arith) requires s >= 0, n >= 0;
    assert((s + 1) * n == s * n + n) by (nonlinear_arith);
}
/// position of slot s's column in the part behind the destination slot
pub proof fn idx_after(s: int, d: int, n: int, k: int)
    requires 0 <= d < s < k, 0 <= n,
    ensures 0 <= (s - d - 1) * n, (s - d - 1) * n + n <= (k - d - 1) * n, (s - d - 1) * n + (d + 1) * n == s * n,
        (d + 1) * n == d * n + n, k * n == (k - d - 1) * n + d * n + n,
{
    assert((s - d - 1) * n + n <= (k - d - 1) * n) by (nonlinear_arith) requires s + 1 <= k, n >= 0;
    assert(0 <= (s - d - 1) * n) by (nonlinear_arith) requires s - d - 1 >= 0, n >= 0;
    assert((s - d - 1) * n + (d + 1) * n == s * n) by (nonlinear_arith);
    assert((d + 1) * n == d * n + n) by (nonlinear_arith);
    assert(k * n == (k - d - 1) * n + d * n + n) by (nonlinear_arith);
}
pub proof fn idx_split(d: int, n: int, k: int)
    requires 0 <= d < k, 0 <= n,
    ensures 0 <= d * n, d * n + n <= k * n, k * n - d * n - n == (k - d - 1) * n, 0 <= (k - d - 1) * n,
{
    assert(d * n + n <= k * n) by (nonlinear_arith) requires d + 1 <= k, n >= 0;
    assert(0 <= d * n) by (nonlinear_arith) requires d >= 0, n >= 0;
    assert(k * n - d * n - n == (k - d - 1) * n) by (nonlinear_arith);
    assert(0 <= (k - d - 1) * n) by (nonlinear_arith) requires k - d - 1 >= 0, n >= 0;
}
/// distinct slots occupy disjoint ranges
pub proof fn idx_apart(s: int, d: int, n: int, row: int)
    requires s != d, 0 <= row < n,
    ensures s < d ==> s * n + row < d * n, s > d ==> s * n + row >= d * n + n,
{
    if s < d { assert(s * n + n <= d * n) by (nonlinear_arith) requires s + 1 <= d, n >= 0; }
    else { assert(d * n + n <= s * n) by (nonlinear_arith) requires d + 1 <= s, n >= 0; }
}
