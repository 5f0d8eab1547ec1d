use chrono::{DateTime, Utc};
use glam::*;
use harness::ops::TypeOps;
use harness::{reg, reg_be, reg_le};
use indexmap_v1 as i1;
use indexmap_v2 as i2;
use regex::Regex;
use smallvec::SmallVec;
use uuid::Uuid;

fn main() {
    let mut v: Vec<TypeOps> = Vec::new();
    reg!(v, "ext"; Uuid, Vec<Uuid>, Option<Uuid>, DateTime<Utc>, Vec<DateTime<Utc>>, (u8, DateTime<Utc>, Uuid),
        Vec2, Vec3, Vec3A, Vec4, DVec2, DVec3, DVec4, IVec2, IVec3, IVec4, UVec2, UVec3, UVec4, Quat, DQuat,
        Mat2, Mat3, Mat3A, Mat4, DMat2, DMat3, DMat4, Affine2, Affine3A, DAffine2, DAffine3, BVec2, BVec3, BVec4,
        Vec<Vec3>, Vec<Mat2>, (u8, Quat, BVec3), Option<Affine2>, [IVec2; 2],
        SmallVec<[u8; 4]>, SmallVec<[u16; 2]>, SmallVec<[u64; 3]>, SmallVec<[String; 2]>, SmallVec<[(u8, u16); 2]>, Vec<SmallVec<[u32; 2]>>, SmallVec<[Option<u8>; 1]>,
        i1::IndexSet<u8>, i1::IndexSet<u32>, i1::IndexSet<String>, i1::IndexMap<u8, u16>, i1::IndexMap<u16, u8>, i1::IndexMap<String, u32>, i1::IndexMap<u8, Vec<u16>>, i1::IndexMap<u8, i1::IndexSet<u8>>,
        i2::IndexSet<u8>, i2::IndexSet<u32>, i2::IndexSet<String>, i2::IndexMap<u8, u16>, i2::IndexMap<u16, u8>, i2::IndexMap<String, u32>, i2::IndexMap<u8, Vec<u16>>, i2::IndexMap<u8, i2::IndexSet<u8>>,
        i1::IndexSet<bool>, i2::IndexSet<bool>, i1::IndexMap<bool, u8>, i2::IndexMap<bool, u8>, Option<i2::IndexMap<u8, u8>>);
    #[cfg(feature = "std")]
    reg!(v, "ext regex"; Regex, Vec<Regex>, Option<Regex>, (u8, Regex));
    reg_le!(v, "ext le"; Uuid, DateTime<Utc>, Vec3, Mat3, SmallVec<[u16; 2]>, i2::IndexMap<u8, u16>, i1::IndexSet<u32>);
    #[cfg(feature = "std")]
    reg_le!(v, "ext le"; Regex);
    reg_be!(v, "ext be"; Uuid, DateTime<Utc>, DVec3, Mat2, SmallVec<[u32; 2]>, i2::IndexMap<u8, u16>, i1::IndexSet<u32>);
    #[cfg(feature = "std")]
    reg_be!(v, "ext be"; Regex);
    harness::jobs::main(v);
}
