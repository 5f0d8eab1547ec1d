//! What the library offers in a configuration (see spec/Features.tla), one item per line.
#![no_std]
#![allow(unused_imports, dead_code, unused_variables, unused_must_use)]
extern crate alloc;
extern crate std;
use alloc::{borrow::Cow, collections::{BTreeMap, BTreeSet}, string::String, vec::Vec};
use speedy::*;
use std::{collections::{HashMap, HashSet}, time::SystemTime};
#[derive(Clone, Default)] pub struct Bytewise(u64);
impl core::hash::Hasher for Bytewise {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, bytes: &[u8]) { for b in bytes { self.0 = self.0.wrapping_mul(31) + *b as u64 } }
}
pub type Plain = core::hash::BuildHasherDefault<Bytewise>;
pub fn both<'a, C: Context, T: Readable<'a, C> + Writable<C>>() {}
pub fn reads<'a, C: Context, T: Readable<'a, C>>() {}
pub fn writes<C: Context, T: ?Sized + Writable<C>>() {}
pub fn tells(_: &impl core::fmt::Debug) {}
pub fn says(_: &impl core::fmt::Display) {}
pub fn is_error(_: &impl std::error::Error) {}
include!(env!("COMBOS_RS"));
