// declarations listed by Declare.tla; only ever checked by the compiler
#![allow(warnings)]
include!(env!("DECL_RS"));
