//! the expression macro; the expected meaning of each function is its doc comment's method chain
use aegir::Node;
macro_rules! m { ($($name:ident($($a:ident: $t:ident),*) = $e:expr;)*) => {$(
    pub fn $name<$($t: Node),*>($($a: $t),*) -> impl Node { $e }
)*} }
m! {
    add(a: A, b: B) = aegir!(a + b);
    sub(a: A, b: B) = aegir!(a - b);
    mul(a: A, b: B) = aegir!(a * b);
    pow(a: A, b: B) = aegir!(a ^ b);
    sq_int(a: A) = aegir!(a ^ 2);
    sq_float(a: A) = aegir!(a ^ 2.0);
    cube_int(a: A) = aegir!(a ^ 3);
    pow_float(a: A) = aegir!(a ^ 2.5);
    pow_zero(a: A) = aegir!(a ^ 0);
    pow_one(a: A) = aegir!(a ^ 1.0);
    pow_22(a: A) = aegir!(a ^ 22);
    two_pow(a: A) = aegir!(2 ^ a);
    two_int_two() = aegir!(3 ^ 2);
    add_mul(a: A, b: B, c: C) = aegir!(a + b * c);
    mul_add(a: A, b: B, c: C) = aegir!(a * b + c);
    sub_sub(a: A, b: B, c: C) = aegir!(a - b - c);
    sub_add(a: A, b: B, c: C) = aegir!(a - b + c);
    sub_paren(a: A, b: B, c: C) = aegir!(a - (b - c));
    sub_paren_add(a: A, b: B, c: C) = aegir!(a - (b + c));
    paren_mul(a: A, b: B, c: C) = aegir!((a + b) * c);
    mul_paren(a: A, b: B, c: C) = aegir!(a * (b - c));
    mul_mul(a: A, b: B, c: C) = aegir!(a * b * c);
    pow_paren(a: A, b: B, c: C) = aegir!((a * b) ^ c);
    mul_pow(a: A, b: B, c: C) = aegir!(a * (b ^ c));
    pow_sum(a: A, b: B, c: C) = aegir!(a ^ (b + c));
    pow_pow(a: A, b: B, c: C) = aegir!(a ^ b ^ c);
    pow_pow_r(a: A, b: B, c: C) = aegir!(a ^ (b ^ c));
    sse(a: A, b: B) = aegir!((a - b) ^ 2);
    sse_pow(a: A, b: B) = aegir!((a - b) ^ 4);
    lit_int_l(a: A) = aegir!(10 - a);
    lit_int_r(a: A) = aegir!(a - 10);
    lit_float_l(a: A) = aegir!(0.25 * a);
    lit_float_r(a: A) = aegir!(a * 0.25);
    lit_zero(a: A) = aegir!(a + 0);
    lit_one(a: A) = aegir!(a * 1);
    lit_two(a: A) = aegir!(a * 2);
    lit_two_l(a: A) = aegir!(2.0 * a - 1.0);
    lit_sep(a: A) = aegir!(a + 1_000);
    lit_exp(a: A) = aegir!(a + 1e3);
    lit_only_int() = aegir!(7);
    lit_only_float() = aegir!(7.5);
    lit_paren() = aegir!((3));
    method(a: A, b: B) = aegir!(a.ln() + b.neg());
    method_arg(a: A, b: B, c: C) = aegir!((a + b).mul(b_or(c) - 1));
    method_lit(a: A) = aegir!(a.pow(3).add(2.0));
    method_inner(a: A, b: B, c: C) = aegir!((a - b).abs() * (c + 1).ln());
    call(a: A, b: B) = aegir!(b_or(a * b) - 1);
    block(a: A, b: B) = aegir!({ a - b });
    grouped(a: A, b: B, c: C, d: D) = aegir!(((a + b * c) ^ 2) - ((d ^ 3) - 2));
    loose(a: A, b: B, c: C) = aegir!(a + b ^ c * 2);
    nested(a: A, b: B, c: C, d: D) = aegir!((a - b * (c - d)) ^ 2 - (3 - 2));
}
pub fn tuple_field<A: Node, B: Node>(p: (A, B)) -> impl Node { aegir!(p.0 - p.1) }
pub fn let_block<A: Node, B: Node, C: Node>(a: A, b: B, c: C) -> impl Node { aegir!({ let s = a - b; c * s }) }
pub fn in_call<A: Node, B: Node, C: Node>(a: A, b: B, c: C) -> impl Node { aegir!(b_or(a - b * c) - b_or(2)) }
pub fn turbofish<A: Node, B: Node>(a: A, b: B) -> impl Node { aegir!(Node::add(a * 3, b ^ 2) - 1) }
pub fn b_or<N: Node>(n: N) -> N { n }
