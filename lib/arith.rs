// truncating division of the code in terms of mathematical division (Verus: a / b is -((-a) div b) for negative a)
proof fn lemma_tdiv(a: int, b: int)
    requires a >= 0, b != 0,
    ensures b < 0 ==> a / b == -(a / (-b)), b < 0 ==> a % b == a % (-b), b > 0 ==> 0 <= a / b <= a, b < 0 ==> 0 <= a / (-b) <= a,
{
    let c = if b > 0 { b } else { -b };
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, c);
    vstd::arithmetic::div_mod::lemma_mod_bound(a, c);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(a, c);
    let q = a / c; let r = a % c;
    assert(q <= a) by (nonlinear_arith) requires a == c * q + r, 0 <= r, c >= 1, q >= 0;
    if b < 0 {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b);
        let q2 = a / b; let r2 = a % b;
        assert(0 <= r2 < c) by (nonlinear_arith) requires r2 == a % b, b < 0, c == -b;
        assert(q2 == -q) by (nonlinear_arith) requires a == c * q + r, a == b * q2 + r2, b == -c, 0 <= r < c, 0 <= r2 < c;
        assert(b * q2 == c * q) by (nonlinear_arith) requires q2 == -q, b == -c;
    }
}
