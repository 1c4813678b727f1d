//! identifiers with a symbol given as an identifier, as a string, containing format braces, escaped, and none at all
aegir::ids!(X::x, Y::y, Z::"zed", Braced::"{{b}}", Spaced::"a b", Uni::"\u{1D4D0}", Plain, W, Dup::x);
