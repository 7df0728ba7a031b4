use crate::vx_ldpc::labrador_ldpc::*;
// ---- images as matrices of doubles
pub open spec fn floats(m: Mat<u8>) -> Mat<f64> { Mat { w: m.w, d: Seq::new(m.d.len(), |r: int| Seq::new(m.w as nat, |c: int| of_int(m.at(r, c) as int))) } }
pub open spec fn to_pixel(x: f64, b: u8) -> bool { fin(x) ==> b as int == clamp_int(rro(val(x)), 0, 255) }
pub open spec fn is_pixels(x: Mat<f64>, m: Mat<u8>) -> bool { m.wf() && m.same_dim(x) && forall|r: int, c: int| 0 <= r < x.h() && 0 <= c < x.w ==> to_pixel(x.at(r, c), #[trigger] m.at(r, c)) }
pub proof fn lemma_floats(m: Mat<u8>)
    requires m.wf()
    ensures floats(m).wf(), floats(m).same_dim(m), bounded(floats(m), 255real), lim(255real),
        forall|r: int, c: int| 0 <= r < m.h() && 0 <= c < m.w ==> #[trigger] floats(m).at(r, c) == of_int(m.at(r, c) as int) && fin(floats(m).at(r, c)) && val(floats(m).at(r, c)) == m.at(r, c) as real
{
    assert forall|r: int, c: int| 0 <= r < m.h() && 0 <= c < m.w implies #[trigger] floats(m).at(r, c) == of_int(m.at(r, c) as int) && fin(floats(m).at(r, c)) && val(floats(m).at(r, c)) == m.at(r, c) as real by {
        ax_of_int(m.at(r, c) as int);
        ax_rn_int(m.at(r, c) as int);
    }
}
pub proof fn lemma_index(w: int, r: int, c: int)
    requires 0 <= c < w, 0 <= r
    ensures (r * w + c) / w == r, (r * w + c) % w == c, 0 <= r * w + c
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(r * w + c, w, r, c);
    assert(r * w >= 0) by (nonlinear_arith) requires r >= 0, w > 0;
}
pub proof fn lemma_index_in(h: int, w: int, r: int, c: int)
    requires 0 <= c < w, 0 <= r < h
    ensures (r * w + c) / w == r, (r * w + c) % w == c, 0 <= r * w + c < h * w
{
    lemma_index(w, r, c);
    assert(r * w + c < h * w) by (nonlinear_arith) requires r + 1 <= h, c < w, 0 <= c;
}
pub proof fn lemma_mapped_floats(m: Mat<u8>, a: Seq<f64>)
    requires m.wf(), a.len() == m.h() * m.w, forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == of_int(cells_of(m)[i] as int)
    ensures mat_of(a, m.h(), m.w) == floats(m)
{
    let x = mat_of(a, m.h(), m.w);
    assert forall|r: int| 0 <= r < m.h() implies x.d[r] == floats(m).d[r] by {
        assert forall|c: int| 0 <= c < m.w implies x.d[r][c] == floats(m).d[r][c] by { lemma_index_in(m.h(), m.w, r, c); }
        assert(x.d[r] =~= floats(m).d[r]);
    }
    assert(x.d =~= floats(m).d);
}
pub proof fn lemma_mapped_pixels(x: Mat<f64>, a: Seq<u8>)
    requires x.wf(), a.len() == x.h() * x.w, forall|i: int| 0 <= i < a.len() ==> to_pixel(cells_of(x)[i], #[trigger] a[i])
    ensures is_pixels(x, mat_of(a, x.h(), x.w))
{
    let m = mat_of(a, x.h(), x.w);
    assert forall|r: int, c: int| 0 <= r < x.h() && 0 <= c < x.w implies to_pixel(x.at(r, c), #[trigger] m.at(r, c)) by {
        lemma_index_in(x.h(), x.w, r, c);
    }
}
pub proof fn lemma_trunc(k: int) ensures trunc_real(k as real) == k {}
// ---- the coarsest sub-band of an image
pub open spec fn hh<T>(m: Mat<T>, l: int) -> int { m.h() / pow2(l) }
pub open spec fn ww<T>(m: Mat<T>, l: int) -> int { m.w / pow2(l) }
pub open spec fn dom(m: Mat<u8>, l: int) -> Mat<f64> { fwd(floats(m), l).block(hh(m, l), ww(m, l)) }
pub open spec fn cap(m: Mat<u8>, l: int) -> int { hh(m, l) * ww(m, l) / 8 }
pub open spec fn shape_ok(m: Mat<u8>, l: int) -> bool { 1 <= l <= 16 && dims_ok(m, l) && hh(m, l) * ww(m, l) <= 0x10_0000_0000_0000 }
// deep enough for the coefficients of an 8-bit image to lie in range
pub open spec fn scale_ok(d: f64, l: int) -> bool { depth_ok(d) && val(d) * 1000real >= pow2(l) as real }
pub open spec fn deep(d: f64, l: int) -> bool { val(d) * 2real >= 5real * (pow2(l) as real) }
pub open spec fn amp(d: f64, l: int) -> real { 0.75real * val(d) / (pow2(l) as real) }
pub open spec fn headroom(m: Mat<u8>, d: f64, l: int) -> bool {
    forall|r: int, c: int| 0 <= r < m.h() && 0 <= c < m.w ==> amp(d, l) + 1real <= (#[trigger] m.at(r, c)) as real <= 254real - amp(d, l)
}
pub proof fn lemma_dom(m: Mat<u8>, d: f64, l: int)
    requires shape_ok(m, l), scale_ok(d, l)
    ensures dom(m, l).wf(), dom(m, l).h() == hh(m, l), dom(m, l).w == ww(m, l), domain_mil(dom(m, l), d), domain_ok(dom(m, l), d), 0 < hh(m, l) <= m.h(), 0 < ww(m, l) <= m.w,
        fwd(floats(m), l).wf(), fwd(floats(m), l).same_dim(m), dims_ok(floats(m), l)
{
    let x = floats(m);
    lemma_floats(m);
    lemma_fwd(x, 255real, l, l);
    lemma_dims(m.h(), l, l - 1);
    lemma_dims(m.w, l, l - 1);
    let f = fwd(x, l);
    lemma_split(f, hh(m, l), ww(m, l));
    lemma_mx(255real, l);
    let y = dom(m, l);
    assert(ww(m, l) <= hh(m, l) * ww(m, l)) by (nonlinear_arith) requires hh(m, l) >= 1, ww(m, l) >= 1;
    assert forall|i: int| 0 <= i < cells(y) implies million_ok(#[trigger] nth(y, i), d) && coef_ok(nth(y, i), d) by {
        lemma_cell(y, i);
        let r = i / y.w;
        let c = i % y.w;
        assert(inblock(x, l, r, c));
        assert(fwd_ok(x, 255real, l, r, c));
        assert(nth(y, i) == f.at(r, c));
        assert(within(f.at(r, c), 2real * mx(255real, l)));
    }
}
// what embedding leaves in an image: the sub-band reads as the bits, with room, and no pixel moved far
pub open spec fn carries(m: Mat<u8>, n: Mat<u8>, e: Seq<u8>, d: f64, l: int) -> bool {
    &&& n.wf() && n.same_dim(m)
    &&& 8 * e.len() <= cells(dom(n, l))
    &&& forall|i: int| 0 <= i < 8 * e.len() ==> rbit(#[trigger] nth(dom(n, l), i), d) == bits_of(e)[i]
    &&& forall|r: int, c: int| 0 <= r < m.h() && 0 <= c < m.w ==> moved_ok(m, n, d, l, r, c)
}
pub open spec fn moved_ok(m: Mat<u8>, n: Mat<u8>, d: f64, l: int, r: int, c: int) -> bool { rabs(n.at(r, c) as real - m.at(r, c) as real) <= amp(d, l) + 501real / 1000real }
pub proof fn lemma_small_eb(l: int, d: real)
    requires 1 <= l <= 16, 0real < d <= 1000000real
    ensures eb(255real, 0.76real * d, l, 0) <= 1real / 100000real, 0real <= 0.76real * d <= 100000000000real
{
    let t = l as real;
    assert(mx(255real, 0) == 255real);
    assert(eb(255real, 0.76real * d, l, 0) == t * 2real * eta() * 255real + 2real * eta() * (0.76real * d));
    assert(t * 2real * eta() * 255real <= 8.2real / 1000000real) by (nonlinear_arith) requires 1real <= t <= 16real, eta() == 1real / 1000000000000real;
    assert(2real * eta() * (0.76real * d) <= 1.6real / 1000000real) by (nonlinear_arith) requires 0real < d <= 1000000real, eta() == 1real / 1000000000000real;
}
// the numbers of one pixel: it moves by g up to rounding, and is not clipped
pub proof fn lemma_pixel(p: u8, b: u8, x: f64, g: real, a: real, e: real)
    requires near(x, p as real + g, e), 0real <= e <= 1real / 100000real, rabs(g) <= a + 600real / 1000000real, a + 1real <= p as real <= 254real - a, to_pixel(x, b)
    ensures rabs(b as real - p as real - g) <= 0.5real + 1real / 100000real, rabs(b as real - p as real) <= a + 501real / 1000real
{
    let k = rro(val(x));
    lemma_round(val(x));
    assert(k as real >= 0.4real && k as real <= 254.6real);
    assert(0 <= k <= 255);
}
pub proof fn lemma_block_of(l: int, r: int, c: int, x: int, y: int)
    requires 0 <= l, 0 <= r, 0 <= c, of_block(l, r, c, x, y)
    ensures x / pow2(l) == r, y / pow2(l) == c, 0 <= x, 0 <= y
{
    lemma_pow2(l);
    let p = pow2(l);
    assert((r + 1) * p == r * p + p && (c + 1) * p == c * p + p) by (nonlinear_arith);
    assert(r * p >= 0 && c * p >= 0) by (nonlinear_arith) requires r >= 0, c >= 0, p >= 1;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, p, r, x - r * p);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y, p, c, y - c * p);
}
pub open spec fn written_image(m: Mat<u8>, w: Mat<f64>, n: Mat<u8>, l: int) -> bool {
    is_pixels(inv(fwd(floats(m), l).put_block(w), l), n)
}
// the written sub-band changes the transform only there, by at most 0.76 of the depth
pub proof fn lemma_put_changed(m: Mat<u8>, w: Mat<f64>, e: Seq<u8>, d: f64, l: int)
    requires shape_ok(m, l), scale_ok(d, l), 8 * e.len() <= cells(dom(m, l)), is_written(dom(m, l), w, bits_of(e), 8 * (e.len() as int), d)
    ensures ({ let f = fwd(floats(m), l); let n = f.put_block(w);
        changed_ll(floats(m), n, l, 0.76real * val(d))
        && forall|r: int, c: int| #[trigger] inblock(m, l, r, c) ==> n.at(r, c) == w.at(r, c) && dom(m, l).at(r, c) == f.at(r, c) && rabs(val(w.at(r, c)) - val(f.at(r, c))) <= val(d) * (0.75real + 3real / 1000000real) })
{
    lemma_dom(m, d, l);
    let x = floats(m);
    let f = fwd(x, l);
    let y = dom(m, l);
    let n = f.put_block(w);
    assert forall|r: int, c: int| #[trigger] inblock(m, l, r, c) implies n.at(r, c) == w.at(r, c) && y.at(r, c) == f.at(r, c) && fin(n.at(r, c)) && rabs(val(w.at(r, c)) - val(f.at(r, c))) <= val(d) * (0.75real + 3real / 1000000real) by {
        lemma_put_at(f, w, r, c);
        lemma_index_in(y.h(), y.w, r, c);
        let i = r * y.w + c;
        assert(nth(y, i) == y.at(r, c) && nth(w, i) == w.at(r, c));
        assert(million_ok(nth(y, i), d));
        if i < 8 * e.len() {
            lemma_write_moves(nth(y, i), bits_of(e)[i], d);
        } else {
            assert(nth(w, i) == nth(y, i));
            assert(val(d) * (0.75real + 3real / 1000000real) >= 0real) by (nonlinear_arith) requires val(d) > 0real;
        }
    }
    assert(0.76real * val(d) >= val(d) * (0.75real + 3real / 1000000real)) by (nonlinear_arith) requires val(d) > 0real;
    assert forall|r: int, c: int| #[trigger] inblock(x, l, r, c) implies fin(n.at(r, c)) && rabs(val(n.at(r, c)) - val(f.at(r, c))) <= 0.76real * val(d) by {
        assert(inblock(m, l, r, c));
    }
    assert forall|r: int, c: int| #[trigger] incell(x, r, c) && !inblock(x, l, r, c) implies n.at(r, c) == f.at(r, c) by {
        lemma_put_at(f, w, r, c);
    }
}
// every pixel moves by the change of its block
pub open spec fn pixel_ok(m: Mat<u8>, n: Mat<u8>, q: Mat<f64>, d: f64, l: int, r: int, c: int) -> bool {
    let g = chg(q, fwd(floats(m), l), l, r, c);
    rabs(n.at(r, c) as real - m.at(r, c) as real - g) <= 0.5real + 1real / 100000real && moved_ok(m, n, d, l, r, c)
}
pub proof fn lemma_amp(d: real, q: real, g: real, s: real, a: real)
    requires q >= 1real, 0real < d, a == 0.75real * d / q, a <= 126.5real, g * q == s, rabs(s) <= d * (0.75real + 3real / 1000000real)
    ensures rabs(g) <= a + 600real / 1000000real
{
    assert(a * q == 0.75real * d) by (nonlinear_arith) requires a == 0.75real * d / q, q >= 1real;
    let z = a * (1real + 4real / 1000000real);
    assert(z * q == 0.75real * d + 3real / 1000000real * d) by (nonlinear_arith) requires z == a * (1real + 4real / 1000000real), a * q == 0.75real * d;
    assert(d * (0.75real + 3real / 1000000real) == 0.75real * d + 3real / 1000000real * d) by (nonlinear_arith);
    assert(z == a + 4real / 1000000real * a) by (nonlinear_arith) requires z == a * (1real + 4real / 1000000real);
    assert(g <= z) by (nonlinear_arith) requires g * q <= z * q, q >= 1real;
    assert(g >= -z) by (nonlinear_arith) requires g * q >= -(z * q), q >= 1real;
}
pub proof fn lemma_pixels(m: Mat<u8>, w: Mat<f64>, n: Mat<u8>, e: Seq<u8>, d: f64, l: int, r: int, c: int)
    requires shape_ok(m, l), scale_ok(d, l), headroom(m, d, l), 8 * e.len() <= cells(dom(m, l)), is_written(dom(m, l), w, bits_of(e), 8 * (e.len() as int), d), written_image(m, w, n, l), 0 <= r < m.h(), 0 <= c < m.w
    ensures pixel_ok(m, n, fwd(floats(m), l).put_block(w), d, l, r, c), n.wf(), n.same_dim(m)
{
    let x = floats(m);
    let f = fwd(x, l);
    let q = f.put_block(w);
    let dd = 0.76real * val(d);
    lemma_floats(m);
    lemma_dom(m, d, l);
    lemma_put_changed(m, w, e, d, l);
    lemma_small_eb(l, val(d));
    lemma_inverse(x, q, 255real, dd, l);
    assert(incell(x, r, c));
    assert(m.at(r, c) as real <= 254real - amp(d, l) && m.at(r, c) as real >= amp(d, l) + 1real);
    lemma_chg_flat(q, f, l, r, c);
    lemma_pow_i32(l);
    let p = pow2(l);
    assert(r / p < m.h() / p && c / p < m.w / p && 0 <= r / p && 0 <= c / p) by {
        lemma_div_lt(r, m.h(), p);
        lemma_div_lt(c, m.w, p);
    }
    assert(inblock(m, l, r / p, c / p));
    lemma_amp(val(d), p as real, chg(q, f, l, r, c), val(q.at(r / p, c / p)) - val(f.at(r / p, c / p)), amp(d, l));
    assert(eb(255real, dd, l, 0) >= 0real);
    assert(to_pixel(inv(q, l).at(r, c), n.at(r, c)));
    lemma_pixel(m.at(r, c), n.at(r, c), inv(q, l).at(r, c), chg(q, f, l, r, c), amp(d, l), eb(255real, dd, l, 0));
}
pub proof fn lemma_div_lt(x: int, h: int, p: int)
    requires 0 <= x < h, p >= 1, h % p == 0
    ensures 0 <= x / p < h / p
{
    let q = h / p;
    assert(h == q * p) by (nonlinear_arith) requires q == h / p, h % p == 0, p >= 1;
    let y = x / p;
    assert(y * p <= x && y >= 0) by (nonlinear_arith) requires y == x / p, p >= 1, x >= 0;
    assert(y < q) by (nonlinear_arith) requires y * p <= x, x < q * p, p >= 1;
}
pub proof fn lemma_er_small(l: int)
    requires 1 <= l <= 16
    ensures 0real <= er(255real, l) <= (pow2(l) as real) / 100000real
{
    lemma_mx(255real, l);
    lemma_pow_i32(l);
    let t = l as real;
    let q = pow2(l) as real;
    assert(er(255real, l) == t * eta() * (q * 255real));
    assert(0real <= t * eta() * (q * 255real) <= q / 100000real) by (nonlinear_arith) requires 1real <= t <= 16real, q >= 1real, eta() == 1real / 1000000000000real;
}
// the sub-band of the new image lies within 0.24 depths of the written one
pub proof fn lemma_disturbance(m: Mat<u8>, w: Mat<f64>, n: Mat<u8>, e: Seq<u8>, d: f64, l: int, i: int)
    requires shape_ok(m, l), scale_ok(d, l), deep(d, l), headroom(m, d, l), 8 * e.len() <= cells(dom(m, l)), is_written(dom(m, l), w, bits_of(e), 8 * (e.len() as int), d), written_image(m, w, n, l), 0 <= i < cells(dom(m, l))
    ensures fin(nth(dom(n, l), i)), rabs(val(nth(dom(n, l), i)) - val(nth(w, i))) <= val(d) * (24real / 100real)
{
    let x = floats(m);
    let z = floats(n);
    let f = fwd(x, l);
    let q = f.put_block(w);
    lemma_pow_i32(l);
    lemma_dom(m, d, l);
    lemma_pixels(m, w, n, e, d, l, 0, 0);
    lemma_floats(m);
    lemma_floats(n);
    lemma_dom(n, d, l);
    lemma_put_changed(m, w, e, d, l);
    lemma_cell(dom(m, l), i);
    let r = i / ww(m, l);
    let c = i % ww(m, l);
    let p = pow2(l);
    let pr = p as real;
    assert(inblock(m, l, r, c));
    assert(inblock(x, l, r, c) && inblock(z, l, r, c));
    let s = val(q.at(r, c)) - val(f.at(r, c));
    let t = s / pr;
    assert(t * pr == s) by (nonlinear_arith) requires t == s / pr, pr >= 1real;
    let rho = 0.5real + 1real / 100000real;
    assert forall|a: int, b: int| #[trigger] of_block(l, r, c, a, b) implies off(x, z, t, rho, a, b) by {
        lemma_block_of(l, r, c, a, b);
        lemma_in_dims(m.h(), p, r, a);
        lemma_in_dims(m.w, p, c, b);
        lemma_pixels(m, w, n, e, d, l, a, b);
        lemma_chg_flat(q, f, l, a, b);
        let g = chg(q, f, l, a, b);
        assert(g == t) by (nonlinear_arith) requires g * pr == s, t * pr == s, pr >= 1real;
        assert(val(x.at(a, b)) == m.at(a, b) as real);
        assert(val(z.at(a, b)) == n.at(a, b) as real);
    }
    lemma_ll_off(x, z, l, r, c, t, rho);
    lemma_fwd(x, 255real, l, l);
    lemma_fwd(z, 255real, l, l);
    assert(fwd_ok(x, 255real, l, r, c));
    assert(fwd_ok(z, 255real, l, r, c));
    lemma_er_small(l);
    assert(nth(dom(n, l), i) == fwd(z, l).at(r, c));
    assert(nth(w, i) == q.at(r, c));
    lemma_sum_small(val(fwd(z, l).at(r, c)), ll(z, l, r, c), ll(x, l, r, c), val(f.at(r, c)), val(q.at(r, c)), er(255real, l), pr, val(d), rho);
}
pub proof fn lemma_sum_small(a: real, lz: real, lx: real, f: real, q: real, er: real, pr: real, d: real, rho: real)
    requires rabs(a - lz) <= er, rabs(f - lx) <= er, rabs(lz - lx - (q - f)) <= rho * pr, rho == 0.5real + 1real / 100000real, 0real <= er <= pr / 100000real, d * 2real >= 5real * pr, pr >= 1real
    ensures rabs(a - q) <= d * (24real / 100real)
{
    assert(rho * pr == 0.5real * pr + pr / 100000real) by (nonlinear_arith) requires rho == 0.5real + 1real / 100000real;
}
pub proof fn lemma_carries_all(m: Mat<u8>, d: f64, l: int)
    requires shape_ok(m, l), scale_ok(d, l), deep(d, l), headroom(m, d, l)
    ensures forall|w: Mat<f64>, n: Mat<u8>, e: Seq<u8>| 8 * e.len() <= cells(dom(m, l)) && #[trigger] is_written(dom(m, l), w, bits_of(e), bits_of(e).len() as int, d) && #[trigger] is_pixels(inv(fwd(floats(m), l).put_block(w), l), n) ==> carries(m, n, e, d, l)
{
    assert forall|w: Mat<f64>, n: Mat<u8>, e: Seq<u8>| 8 * e.len() <= cells(dom(m, l)) && #[trigger] is_written(dom(m, l), w, bits_of(e), bits_of(e).len() as int, d) && #[trigger] is_pixels(inv(fwd(floats(m), l).put_block(w), l), n) implies carries(m, n, e, d, l) by {
        assert(bits_of(e).len() == 8 * e.len());
        lemma_carries(m, w, n, e, d, l);
    }
}
pub proof fn lemma_in_dims(h: int, p: int, r: int, a: int)
    requires p >= 1, h % p == 0, 0 <= r < h / p, r * p <= a < (r + 1) * p
    ensures 0 <= a < h
{
    let q = h / p;
    assert(h == q * p) by (nonlinear_arith) requires q == h / p, h % p == 0, p >= 1;
    assert((r + 1) * p <= q * p) by (nonlinear_arith) requires r + 1 <= q, p >= 1;
    assert(r * p >= 0) by (nonlinear_arith) requires r >= 0, p >= 1;
}
pub proof fn lemma_carries(m: Mat<u8>, w: Mat<f64>, n: Mat<u8>, e: Seq<u8>, d: f64, l: int)
    requires shape_ok(m, l), scale_ok(d, l), deep(d, l), headroom(m, d, l), 8 * e.len() <= cells(dom(m, l)), is_written(dom(m, l), w, bits_of(e), 8 * (e.len() as int), d), written_image(m, w, n, l)
    ensures carries(m, n, e, d, l)
{
    lemma_dom(m, d, l);
    lemma_pixels(m, w, n, e, d, l, 0, 0);
    lemma_dom(n, d, l);
    let y = dom(m, l);
    let v = dom(n, l);
    assert forall|i: int| 0 <= i < cells(w) implies fin(#[trigger] nth(v, i)) && rabs(val(nth(v, i)) - val(nth(w, i))) <= val(d) * (24real / 100real) by {
        lemma_disturbance(m, w, n, e, d, l, i);
    }
    assert(disturbed(w, v, d));
    lemma_disturbed_ok(y, w, v, bits_of(e), 8 * (e.len() as int), d);
    assert forall|r: int, c: int| 0 <= r < m.h() && 0 <= c < m.w implies moved_ok(m, n, d, l, r, c) by {
        lemma_pixels(m, w, n, e, d, l, r, c);
    }
}
// ---- payloads
pub open spec fn code_of(m: Mat<u8>, l: int) -> Option<LDPCCode> { code_for(cap(m, l)) }
pub open spec fn coded(m: Mat<u8>, l: int, p: Seq<u8>) -> Seq<u8> { let c = code_of(m, l)->Some_0; enc_upto(c, headed(frame(p)), nwords(c, headed(frame(p)))) }
// the payload fits: there is a code, the framed payload has at most 65535 bytes, and its codewords fit the sub-band
pub open spec fn fits(m: Mat<u8>, l: int, n: int) -> bool {
    code_of(m, l) is Some && n + 2 <= 65535 && ({ let c = code_of(m, l)->Some_0; nchunks(n + 4, c.kb()) * c.nb() <= cap(m, l) })
}
pub proof fn lemma_coded_len(m: Mat<u8>, l: int, p: Seq<u8>)
    requires code_of(m, l) is Some
    ensures ({ let c = code_of(m, l)->Some_0; coded(m, l, p).len() == nchunks(p.len() + 4 as int, c.kb()) * c.nb() })
{
    let c = code_of(m, l)->Some_0;
    lemma_enc_len(c, headed(frame(p)), nwords(c, headed(frame(p))));
}
// the bytes a sub-band reads as
pub open spec fn bytes_read(y: Mat<f64>, d: f64) -> Seq<u8> { choose|e: Seq<u8>| e.len() == cells(y) / 8 && #[trigger] bits_of(e) == all_read(y, d, 8 * (cells(y) / 8)) }
pub proof fn lemma_bytes_read(y: Mat<f64>, d: f64, e: Seq<u8>)
    requires e.len() == cells(y) / 8, bits_of(e) == all_read(y, d, 8 * (e.len() as int))
    ensures bytes_read(y, d) == e
{
    lemma_bits_inj(bytes_read(y, d), e);
}
pub proof fn lemma_bytes_read_all(y: Mat<f64>, d: f64)
    ensures forall|e: Seq<u8>| e.len() == cells(y) / 8 && #[trigger] bits_of(e) == all_read(y, d, 8 * (e.len() as int)) ==> bytes_read(y, d) == e
{
    assert forall|e: Seq<u8>| e.len() == cells(y) / 8 && #[trigger] bits_of(e) == all_read(y, d, 8 * (e.len() as int)) implies bytes_read(y, d) == e by { lemma_bytes_read(y, d, e); }
}
pub open spec fn extractable(n: Mat<u8>, d: f64, l: int) -> bool {
    let e = bytes_read(dom(n, l), d);
    let c = code_of(n, l)->Some_0;
    code_of(n, l) is Some && decodable(c, e) && decoded(c, e).len() >= 3 && 2 + u16_at(decoded(c, e)) <= decoded(c, e).len()
}
pub open spec fn extracted(n: Mat<u8>, d: f64, l: int) -> Seq<u8> {
    let e = bytes_read(dom(n, l), d);
    let c = code_of(n, l)->Some_0;
    decoded(c, e).subrange(2, 2 + u16_at(decoded(c, e)))
}
// reading an image that carries a coded payload gives the payload
pub proof fn lemma_extracts(m: Mat<u8>, n: Mat<u8>, p: Seq<u8>, d: f64, l: int)
    requires shape_ok(m, l), fits(m, l, p.len() as int), 1 <= p.len(), carries(m, n, coded(m, l, p), d, l), dom(n, l).wf()
    ensures extractable(n, d, l), extracted(n, d, l) == p
{
    let y = dom(n, l);
    let c = code_of(m, l)->Some_0;
    let q = cells(y) / 8;
    let e = coded(m, l, p);
    let r = lemma_bits_surj(all_read(y, d, 8 * q), q as nat);
    lemma_bytes_read(y, d, r);
    lemma_coded_len(m, l, p);
    assert(e.len() <= q);
    let t = r.take(e.len() as int);
    assert forall|i: int| 0 <= i < 8 * e.len() implies bits_of(t)[i] == bits_of(e)[i] by {
        assert(bits_of(r)[i] == rbit(nth(y, i), d));
        assert(bits_of(r)[i] == bit(r[i / 8], i % 8));
        assert(t[i / 8] == r[i / 8]);
    }
    assert(bits_of(t) =~= bits_of(e));
    lemma_bits_inj(t, e);
    let tail = r.skip(e.len() as int);
    assert(r =~= e + tail);
    lemma_undamaged_correctable(c, headed(frame(p)), tail);
    lemma_decode_inverts(c, frame(p), r);
    lemma_frame_inverse(p, Seq::<u8>::empty());
    assert(frame(p) + Seq::<u8>::empty() =~= frame(p));
}
