//! contexts made by the three provided routes
use super::idents::*;
use aegir::Context;

/// derive on a struct with generic, concrete, cached and undeclared fields
#[derive(Context)]
pub struct Derived<A, B> {
    pub before: f64,
    #[id(X)] pub fst: A,
    pub between: A,
    #[id(Y)] pub snd: B,
    #[cache] #[id(Z)] pub slot: Option<A>,
    #[id(Plain)] #[cache] pub slot2: Option<B>,
    #[allow(dead_code)] #[id(W)] pub last: f64,
}

#[derive(Context)]
pub struct Bounded<A> where A: PartialEq { #[id(Y)] pub y: A, #[id(X)] pub x: A }

#[derive(Context)]
pub struct Concrete { #[id(X)] pub x: f64, #[id(Y)] pub y: [f64; 3], #[id(W)] pub w: Vec<f64>, #[cache] #[id(Z)] pub z: Option<Vec<f64>>, pub other: f64 }

ctx_type!(Typed { x: X, y: Y, cache z: Z, cache p: Plain, w: W });
ctx_type!(Single { only: Y });
ctx_type!(Caches { cache a: X, cache b: Y });

pub fn anon(x: f64, y: [f64; 2], w: f64) -> impl aegir::Context { ctx!(X = x, Y = y, W = w) }
pub fn anon_swapped(x: f64, y: f64) -> impl aegir::Context { ctx!(Y = y, X = x) }
