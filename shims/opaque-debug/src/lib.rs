//! Stand-in for `opaque-debug`.
#[macro_export]
macro_rules! implement {
    ($t:ident < $($g:ident),* >) => {
        impl<$($g),*> ::core::fmt::Debug for $t<$($g),*> {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                f.write_str(concat!(stringify!($t), " { .. }"))
            }
        }
    };
    ($t:ident) => {
        impl ::core::fmt::Debug for $t {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                f.write_str(concat!(stringify!($t), " { ... }"))
            }
        }
    };
}
