pub mod sym;

/// Declares harness entry points and the table used by the native replay.
macro_rules! harnesses {
    ($(fn $name:ident() $body:block)*) => {
        $( #[no_mangle] pub extern "C" fn $name() $body )*
        pub const TABLE: &[(&str, extern "C" fn())] = &[ $( (stringify!($name), $name) ),* ];
    };
}

#[allow(unused_imports)]
#[macro_use]
extern crate amplify;
#[allow(unused_imports)]
#[macro_use]
extern crate strict_encoding;
#[allow(unused_imports)]
#[macro_use]
extern crate commit_verify;

mod codec;
mod ids;
mod refs;
mod spec;
mod tok;


mod status;
mod misc;
mod mpc;
mod open;
mod text;
mod wide;
mod deep;

pub const TABLES: &[&[(&str, extern "C" fn())]] = &[status::TABLE, misc::TABLE, mpc::TABLE, open::TABLE, ids::TABLE, codec::TABLE, text::TABLE, wide::TABLE, deep::TABLE];
