use harness::life::*;
use harness::ops::TypeOps;
use harness::reg;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::num::NonZeroU8;
use std::ops::{Range, RangeInclusive};
use indexmap_v1 as i1;
use indexmap_v2 as i2;
use smallvec::SmallVec;

#[allow(unused_imports, unused_variables, non_camel_case_types, dead_code, unused_parens)]
mod types {
    include!(env!("LIFE_RS"));
}
fn main() {
    let mut v: Vec<TypeOps> = Vec::new();
    reg!(v, "life"; L, L0, LB, Vec<L>, Vec<L0>, Vec<LB>, Box<[L]>, Box<L>, Box<[L0]>, [L; 1], [L; 3], [L0; 2], [LB; 4], [L; 0], (L,), (L, L), (L, L0, LB),
        (L, u16, L, String, L), (L, L, L, L, L, L, L), Option<L>, Option<Option<L>>, Option<Vec<L>>, Result<L, L>, Result<Vec<L>, String>, Result<L, Vec<LB>>,
        Vec<Vec<L>>, Vec<[L; 2]>, [Vec<L>; 2], [[L; 2]; 2], Vec<Option<L>>, Vec<(L, L)>, Vec<(L, NonZeroU8)>, Vec<(NonZeroU8, L)>, (Vec<L>, Vec<L>), Vec<Box<L>>, Vec<Result<L, char>>,
        (L, String), (String, L, String), Vec<(String, L)>, [Option<L>; 3], [Box<L>; 2], [(L, char); 2], [String; 2], Vec<(L, bool)>,
        BTreeSet<L>, HashSet<L>, BTreeMap<L, L>, HashMap<L, L>, BTreeMap<u8, L>, HashMap<u8, L>, HashMap<L, Vec<L>>, BTreeMap<L, Option<L>>, BTreeMap<L, BTreeSet<L>>, Vec<BTreeSet<L>>, BTreeSet<L0>, HashMap<L0, L0>,
        BTreeSet<(L, L)>, BTreeMap<(L, u8), [L; 2]>, HashSet<[L; 2]>, BTreeSet<Vec<L>>,
        Cow<'static, [L]>, Cow<'static, [L0]>, Cow<'static, [LB]>, Vec<Cow<'static, [L]>>, Cow<'static, BTreeMap<L, L>>, Cow<'static, HashMap<L, L>>, Cow<'static, BTreeSet<L>>, Cow<'static, HashSet<L>>, (L, Cow<'static, [L]>),
        SmallVec<[L; 2]>, SmallVec<[LB; 1]>, Vec<SmallVec<[L; 2]>>, SmallVec<[Vec<L>; 2]>,
        i1::IndexSet<L>, i1::IndexMap<L, L>, i2::IndexSet<L>, i2::IndexMap<L, L>, i2::IndexMap<L, Vec<L>>, i1::IndexMap<L, Option<L>>,
        Range<L>, RangeInclusive<L>, Range<LB>, Vec<Range<L>>, (L, Range<L>));
    reg!(v, "life hollow"; Vec<Ez>, Box<[Ez]>, [Ez; 3], (Ez, Ez), Option<Ez>, Vec<(Ez, Ez)>, [[Ez; 2]; 2], Vec<[Ez; 2]>, SmallVec<[Ez; 2]>, Result<Ez, Ez>, (Ez, L, Ez), [(Ez, L); 2]);
    types::register(&mut v);
    harness::jobs::main(v);
}
