//! Entry points whose intermediate representation is analysed.  Nothing here is ever executed: each
//! function only fixes a monomorphic instance of the public interface of `hash_roll` and routes its
//! results through out-parameters so that they have one fixed layout.
#![allow(clippy::all)]
use hash_roll::*;
use std::mem::MaybeUninit;

fn put(r: Option<usize>, o: &mut [usize; 2]) {
    match r {
        None => { o[0] = 0; o[1] = 0; }
        Some(i) => { o[0] = 1; o[1] = i; }
    }
}
fn put3(r: (Option<usize>, usize), o: &mut [usize; 3]) {
    match r.0 {
        None => { o[0] = 0; o[1] = 0; }
        Some(i) => { o[0] = 1; o[1] = i; }
    }
    o[2] = r.1;
}

macro_rules! incr {
    ($push:ident, $I:ty) => {
        #[no_mangle] pub fn $push(c: &mut $I, d: &[u8], o: &mut [usize; 2]) { put(c.push(d), o) }
    };
}
macro_rules! from {
    ($toincr:ident, $fref:ident, $C:ty, $I:ty) => {
        #[no_mangle] pub fn $toincr(o: &mut MaybeUninit<$I>, c: &$C) { o.write(c.to_chunk_incr()); }
        #[no_mangle] pub fn $fref(o: &mut MaybeUninit<$I>, c: &$C) { o.write(<$I>::from(c)); }
    };
}
macro_rules! fromv {
    ($fval:ident, $C:ty, $I:ty) => {
        #[no_mangle] pub fn $fval(o: &mut MaybeUninit<$I>, c: $C) { o.write(<$I>::from(c)); }
    };
}
macro_rules! fce {
    ($fce:ident, $state:ident, $C:ty, $S:ty) => {
        #[no_mangle] pub fn $fce(c: &$C, s: &mut $S, d: &[u8], o: &mut [usize; 3]) { put3(c.find_chunk_edge(s, d), o) }
        #[no_mangle] pub fn $state(o: &mut MaybeUninit<$S>, c: &$C) { o.write(c.to_search_state()); }
    };
}
macro_rules! dflt {
    ($n:ident, $C:ty) => {
        #[no_mangle] pub fn $n(o: &mut MaybeUninit<$C>) { o.write(<$C>::default()); }
    };
}
macro_rules! cl {
    ($n:ident, $C:ty) => {
        #[no_mangle] pub fn $n(o: &mut MaybeUninit<$C>, c: &$C) { o.write(c.clone()); }
    };
}
macro_rules! eqs {
    ($n:ident, $C:ty) => {
        #[no_mangle] pub fn $n(a: &$C, b: &$C, o: &mut u64) { *o = (a == b) as u64; }
    };
}

type Gear = gear::Gear32<'static>;
type GearI = gear::GearIncr32<'static>;
incr!(gear_push, GearI);
from!(gear_incr, gear_incr_ref, Gear, GearI);
fce!(gear_fce, gear_state, Gear, gear::GearState32);
dflt!(gear_default, Gear);
#[no_mangle] pub fn gear_cfg(o: &mut MaybeUninit<Gear>, l: usize) { o.write(Gear::with_average_size_log2(l)); }
cl!(gear_clone, Gear);
cl!(gear_i_clone, GearI);
cl!(gear_s_clone, gear::GearState32);
eqs!(gear_s_eq, gear::GearState32);

incr!(ram_push, ram::RamIncr);
from!(ram_incr, ram_incr_ref, ram::Ram, ram::RamIncr);
fce!(ram_fce, ram_state, ram::Ram, ram::RamState);
#[no_mangle] pub fn ram_cfg(o: &mut MaybeUninit<ram::Ram>, w: u64) { o.write(ram::Ram::with_w(w)); }
cl!(ram_clone, ram::Ram);
cl!(ram_i_clone, ram::RamIncr);
cl!(ram_s_clone, ram::RamState);
eqs!(ram_eq, ram::Ram);
eqs!(ram_i_eq, ram::RamIncr);
eqs!(ram_s_eq, ram::RamState);

incr!(mii_push, mii::MiiIncr);
from!(mii_incr, mii_incr_ref, mii::Mii, mii::MiiIncr);
fromv!(mii_incr_val, mii::Mii, mii::MiiIncr);
fce!(mii_fce, mii_state, mii::Mii, mii::MiiSearchState);
fromv!(mii_state_incr, mii::MiiIncr, mii::MiiSearchState);
dflt!(mii_default, mii::Mii);
#[no_mangle] pub fn mii_cfg(o: &mut MaybeUninit<mii::Mii>, w: u64) { o.write(mii::Mii::with_w(w)); }
cl!(mii_clone, mii::Mii);

incr!(pigz_push, pigz::PigzRsyncableIncr);
from!(pigz_incr, pigz_incr_ref, pigz::PigzRsyncable, pigz::PigzRsyncableIncr);
fromv!(pigz_incr_val, pigz::PigzRsyncable, pigz::PigzRsyncableIncr);
fce!(pigz_fce, pigz_state, pigz::PigzRsyncable, pigz::PigzRsyncableSearchState);
#[no_mangle] pub fn pigz_state_ref(o: &mut MaybeUninit<pigz::PigzRsyncableSearchState>, c: &pigz::PigzRsyncable) { o.write(c.into()); }
dflt!(pigz_default, pigz::PigzRsyncable);
#[no_mangle] pub fn pigz_cfg(o: &mut MaybeUninit<pigz::PigzRsyncable>, b: u8) { o.write(pigz::PigzRsyncable::with_bits(b)); }
cl!(pigz_clone, pigz::PigzRsyncable);
cl!(pigz_i_clone, pigz::PigzRsyncableIncr);
cl!(pigz_s_clone, pigz::PigzRsyncableSearchState);
eqs!(pigz_eq, pigz::PigzRsyncable);

incr!(bup_push, bup::RollSumIncr);
from!(bup_incr, bup_incr_ref, bup::RollSum, bup::RollSumIncr);
fce!(bup_fce, bup_state, bup::RollSum, bup::RollSumSearchState);
#[no_mangle] pub fn bup_state_ref(o: &mut MaybeUninit<bup::RollSumSearchState>, c: &bup::RollSum) { o.write(c.into()); }
dflt!(bup_default, bup::RollSum);
dflt!(bup_i_default, bup::RollSumIncr);
#[no_mangle] pub fn bup_cfg(o: &mut MaybeUninit<bup::RollSum>, w: usize) { o.write(bup::RollSum::with_window(w)); }
#[no_mangle] pub fn bup_roll_byte(c: &mut bup::RollSumIncr, b: u8) { c.roll_byte(b) }
#[no_mangle] pub fn bup_at_split(c: &bup::RollSumIncr, o: &mut u64) { *o = c.at_split() as u64; }
#[no_mangle] pub fn bup_digest(c: &bup::RollSumIncr, o: &mut u64) { *o = c.digest() as u64; }
cl!(bup_clone, bup::RollSum);
cl!(bup_i_clone, bup::RollSumIncr);
cl!(bup_s_clone, bup::RollSumSearchState);
eqs!(bup_eq, bup::RollSum);
eqs!(bup_i_eq, bup::RollSumIncr);
eqs!(bup_s_eq, bup::RollSumSearchState);

incr!(gzip_push, gzip::GzipRsyncableIncr);
from!(gzip_incr, gzip_incr_ref, gzip::GzipRsyncable, gzip::GzipRsyncableIncr);
fromv!(gzip_incr_val, gzip::GzipRsyncable, gzip::GzipRsyncableIncr);
fce!(gzip_fce, gzip_state, gzip::GzipRsyncable, gzip::GzipRsyncableSearchState);
dflt!(gzip_s_default, gzip::GzipRsyncableSearchState);
dflt!(gzip_default, gzip::GzipRsyncable);
#[no_mangle] pub fn gzip_cfg(o: &mut MaybeUninit<gzip::GzipRsyncable>, w: usize, m: u64) { o.write(gzip::GzipRsyncable::with_window_and_modulus(w, m)); }
cl!(gzip_clone, gzip::GzipRsyncable);
cl!(gzip_i_clone, gzip::GzipRsyncableIncr);
cl!(gzip_s_clone, gzip::GzipRsyncableSearchState);
eqs!(gzip_eq, gzip::GzipRsyncable);

type Fcdc = fastcdc::FastCdc<'static>;
type FcdcI = fastcdc::FastCdcIncr<'static>;
incr!(fastcdc_push, FcdcI);
from!(fastcdc_incr, fastcdc_incr_ref, Fcdc, FcdcI);
fce!(fastcdc_fce, fastcdc_state, Fcdc, fastcdc::FastCdcState);
dflt!(fastcdc_default, Fcdc);
dflt!(fastcdc_i_default, FcdcI);
dflt!(fastcdc_s_default, fastcdc::FastCdcState);
#[no_mangle] pub fn fastcdc_cfg(o: &mut MaybeUninit<Fcdc>, g: &'static [u64; 256], min: u64, normal: u64, max: u64) { o.write(Fcdc::new(g, min, normal, max)); }
cl!(fastcdc_clone, Fcdc);
cl!(fastcdc_i_clone, FcdcI);
cl!(fastcdc_s_clone, fastcdc::FastCdcState);
eqs!(fastcdc_eq, Fcdc);
eqs!(fastcdc_i_eq, FcdcI);
eqs!(fastcdc_s_eq, fastcdc::FastCdcState);

incr!(zstd_push, zstd::ZstdIncr);
from!(zstd_incr, zstd_incr_ref, zstd::Zstd, zstd::ZstdIncr);
fromv!(zstd_incr_val, zstd::Zstd, zstd::ZstdIncr);
fce!(zstd_fce, zstd_state, zstd::Zstd, zstd::ZstdSearchState);
dflt!(zstd_s_default, zstd::ZstdSearchState);
dflt!(zstd_default, zstd::Zstd);
#[no_mangle] pub fn zstd_cfg(o: &mut MaybeUninit<zstd::Zstd>, t: u64) { o.write(zstd::Zstd::with_target_section_size(t)); }
cl!(zstd_clone, zstd::Zstd);
eqs!(zstd_eq, zstd::Zstd);
eqs!(zstd_i_eq, zstd::ZstdIncr);
eqs!(zstd_s_eq, zstd::ZstdSearchState);

incr!(zpaq_push, zpaq::ZpaqIncr);
from!(zpaq_incr, zpaq_incr_ref, zpaq::Zpaq, zpaq::ZpaqIncr);
fromv!(zpaq_incr_val, zpaq::Zpaq, zpaq::ZpaqIncr);
fce!(zpaq_fce, zpaq_state, zpaq::Zpaq, zpaq::ZpaqSearchState);
#[no_mangle] pub fn zpaq_state_ref(o: &mut MaybeUninit<zpaq::ZpaqSearchState>, c: &zpaq::Zpaq) { o.write(c.into()); }
dflt!(zpaq_s_default, zpaq::ZpaqSearchState);
dflt!(zpaq_default, zpaq::Zpaq);
dflt!(zpaq_h_default, zpaq::ZpaqHash);
use std::ops::Bound;
type B2 = (Bound<u64>, Bound<u64>);
fn bnd(t: u64, v: u64) -> Bound<u64> { if t == 0 { Bound::Included(v) } else if t == 1 { Bound::Excluded(v) } else { Bound::Unbounded } }
#[no_mangle] pub fn zpaq_cfg(o: &mut MaybeUninit<zpaq::Zpaq>, avg: u8, lt: u64, lv: u64, ht: u64, hv: u64) {
    let r: B2 = (bnd(lt, lv), bnd(ht, hv));
    o.write(zpaq::Zpaq::with_average_and_range(avg, r));
}
#[no_mangle] pub fn zpaq_cfg_pow2(o: &mut MaybeUninit<zpaq::Zpaq>, avg: u8) { o.write(zpaq::Zpaq::with_average_size_pow_2(avg)); }
#[no_mangle] pub fn zpaq_cfg_max(o: &mut MaybeUninit<zpaq::Zpaq>, max: u64) { o.write(zpaq::Zpaq::with_max_size(max)); }
#[no_mangle] pub fn zpaq_cfg_range(o: &mut MaybeUninit<zpaq::Zpaq>, lt: u64, lv: u64, ht: u64, hv: u64) {
    let r: B2 = (bnd(lt, lv), bnd(ht, hv));
    o.write(zpaq::Zpaq::with_range(r));
}
cl!(zpaq_clone, zpaq::Zpaq);
cl!(zpaq_h_clone, zpaq::ZpaqHash);
eqs!(zpaq_eq, zpaq::Zpaq);
eqs!(zpaq_h_eq, zpaq::ZpaqHash);

// buzhash with each byte hash
type HT = buzhash::BuzHashTableHash<'static>;
type HB = buzhash::BuzHashTableBufHash;
type HS = buzhash::BuzHashTableByteSaltHash<'static>;
macro_rules! buz {
    ($H:ty, $push:ident, $incr:ident, $incrr:ident, $incrv:ident, $fce:ident, $state:ident, $clone:ident, $iclone:ident) => {
        incr!($push, buzhash::BuzHashIncr<$H>);
        from!($incr, $incrr, buzhash::BuzHash<$H>, buzhash::BuzHashIncr<$H>);
        fromv!($incrv, buzhash::BuzHash<$H>, buzhash::BuzHashIncr<$H>);
        fce!($fce, $state, buzhash::BuzHash<$H>, buzhash::BuzHashSearchState);
        cl!($clone, buzhash::BuzHash<$H>);
        cl!($iclone, buzhash::BuzHashIncr<$H>);
    };
}
buz!(HT, buzt_push, buzt_incr, buzt_incr_ref, buzt_incr_val, buzt_fce, buzt_state, buzt_clone, buzt_i_clone);
buz!(HB, buzb_push, buzb_incr, buzb_incr_ref, buzb_incr_val, buzb_fce, buzb_state, buzb_clone, buzb_i_clone);
buz!(HS, buzs_push, buzs_incr, buzs_incr_ref, buzs_incr_val, buzs_fce, buzs_state, buzs_clone, buzs_i_clone);
#[no_mangle] pub fn buzt_cfg(o: &mut MaybeUninit<buzhash::BuzHash<HT>>, t: &'static [u32; 256], k: usize, mask: u32, max: u64) {
    o.write(buzhash::BuzHash::new(k, mask, HT::from(t), max));
}
#[no_mangle] pub fn buzb_cfg(o: &mut MaybeUninit<buzhash::BuzHash<HB>>, t: Box<[u32; 256]>, k: usize, mask: u32, max: u64) {
    o.write(buzhash::BuzHash::new(k, mask, HB::from(t), max));
}
#[no_mangle] pub fn buzs_cfg(o: &mut MaybeUninit<buzhash::BuzHash<HS>>, t: &'static [u32; 256], salt: u8, k: usize, mask: u32, max: u64) {
    o.write(buzhash::BuzHash::new(k, mask, HS::from((salt, t)), max));
}
#[no_mangle] pub fn buzs_nom(o: &mut MaybeUninit<buzhash::BuzHash<HS>>, salt: u8) { o.write(buzhash::BuzHash::new_nom(salt)); }
#[no_mangle] pub fn buzs_go_table(o: &mut usize) { *o = &buzhash_table::GO_BUZHASH as *const _ as usize; }
dflt!(buz_s_default, buzhash::BuzHashSearchState);
cl!(buz_s_clone, buzhash::BuzHashSearchState);
eqs!(buz_s_eq, buzhash::BuzHashSearchState);

// a comparable user hash, so that the generated comparison and copy code of the configuration is present
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct UserHash(pub u32);
impl buzhash::BuzHashHash for UserHash {
    fn hash(&self, data: u8) -> u32 { self.0.wrapping_mul(data as u32 | 1) }
}
#[no_mangle] pub fn buzu_cfg(o: &mut MaybeUninit<buzhash::BuzHash<UserHash>>, u: u32, k: usize, mask: u32, max: u64) {
    o.write(buzhash::BuzHash::new(k, mask, UserHash(u), max));
}
incr!(buzu_push, buzhash::BuzHashIncr<UserHash>);
from!(buzu_incr, buzu_incr_ref, buzhash::BuzHash<UserHash>, buzhash::BuzHashIncr<UserHash>);
fce!(buzu_fce, buzu_state, buzhash::BuzHash<UserHash>, buzhash::BuzHashSearchState);
cl!(buzu_clone, buzhash::BuzHash<UserHash>);
cl!(buzu_i_clone, buzhash::BuzHashIncr<UserHash>);
eqs!(buzu_eq, buzhash::BuzHash<UserHash>);
eqs!(buzu_i_eq, buzhash::BuzHashIncr<UserHash>);

// slice iterators over a chunker whose behaviour is completely unknown
extern "Rust" {
    fn opaque_push(c: *mut u64, d: *const u8, n: usize, o: &mut [usize; 2]);
}
pub struct Opaque(pub u64);
impl ChunkIncr for Opaque {
    #[inline(always)]
    fn push(&mut self, d: &[u8]) -> Option<usize> {
        let mut o = [0usize; 2];
        unsafe { opaque_push(&mut self.0, d.as_ptr(), d.len(), &mut o) };
        if o[0] == 0 { None } else { Some(o[1]) }
    }
}
fn puts(r: Option<&[u8]>, o: &mut [usize; 3]) {
    match r {
        None => { o[0] = 0; o[1] = 0; o[2] = 0; }
        Some(s) => { o[0] = 1; o[1] = s.as_ptr() as usize; o[2] = s.len(); }
    }
}
#[no_mangle] pub fn it_new(o: &mut MaybeUninit<IterSlices<'static, Opaque>>, c: Opaque, d: &'static [u8]) { o.write(c.iter_slices(d)); }
#[no_mangle] pub fn it_next(it: &mut IterSlices<'static, Opaque>, o: &mut [usize; 3]) { puts(it.next(), o) }
#[no_mangle] pub fn it_parts(it: IterSlices<'static, Opaque>, o: &mut [usize; 3]) { let (c, r) = it.into_parts(); puts(Some(r), o); o[0] = c.0 as usize; }
#[no_mangle] pub fn its_new(o: &mut MaybeUninit<IterSlicesStrict<'static, Opaque>>, c: Opaque, d: &'static [u8]) { o.write(c.iter_slices_strict(d)); }
#[no_mangle] pub fn its_next(it: &mut IterSlicesStrict<'static, Opaque>, o: &mut [usize; 3]) { puts(it.next(), o) }
#[no_mangle] pub fn its_take(it: &mut IterSlicesStrict<'static, Opaque>, o: &mut [usize; 3]) { puts(Some(it.take_rem()), o) }
#[no_mangle] pub fn its_parts(it: IterSlicesStrict<'static, Opaque>, o: &mut [usize; 3]) { let (c, r) = it.into_parts(); puts(Some(r), o); o[0] = c.0 as usize; }
// the layout of the iterators, read back through their public accessors only
#[no_mangle] pub fn it_round(o: &mut [usize; 3], c: Opaque, d: &'static [u8]) { let (c, r) = c.iter_slices(d).into_parts(); puts(Some(r), o); o[0] = c.0 as usize; }
#[no_mangle] pub fn its_round(o: &mut [usize; 3], c: Opaque, d: &'static [u8]) { let (c, r) = c.iter_slices_strict(d).into_parts(); puts(Some(r), o); o[0] = c.0 as usize; }
// one step followed by reading the iterator back
#[no_mangle] pub fn it_step(o: &mut [usize; 3], p: &mut [usize; 3], c: Opaque, d: &'static [u8]) {
    let mut it = c.iter_slices(d); puts(it.next(), o); let (c, r) = it.into_parts(); puts(Some(r), p); p[0] = c.0 as usize;
}
#[no_mangle] pub fn its_step(o: &mut [usize; 3], p: &mut [usize; 3], c: Opaque, d: &'static [u8]) {
    let mut it = c.iter_slices_strict(d); puts(it.next(), o); let (c, r) = it.into_parts(); puts(Some(r), p); p[0] = c.0 as usize;
}
#[no_mangle] pub fn its_take_step(o: &mut [usize; 3], p: &mut [usize; 3], c: Opaque, d: &'static [u8]) {
    let mut it = c.iter_slices_strict(d); puts(Some(it.take_rem()), o); let (c, r) = it.into_parts(); puts(Some(r), p); p[0] = c.0 as usize;
}

// range helper
use range::RangeExt;
#[no_mangle] pub fn range_exceeds(lt: u64, lv: u64, ht: u64, hv: u64, x: u64, o: &mut u64) { let r: B2 = (bnd(lt, lv), bnd(ht, hv)); *o = r.exceeds_max(&x) as u64; }
#[no_mangle] pub fn range_under(lt: u64, lv: u64, ht: u64, hv: u64, x: u64, o: &mut u64) { let r: B2 = (bnd(lt, lv), bnd(ht, hv)); *o = r.under_min(&x) as u64; }
#[no_mangle] pub fn range_contains(lt: u64, lv: u64, ht: u64, hv: u64, x: u64, o: &mut u64) { let r: B2 = (bnd(lt, lv), bnd(ht, hv)); *o = RangeExt::contains(&r, &x) as u64; }
fn unb(b: Bound<u64>) -> (u64, u64) { match b { Bound::Included(v) => (0, v), Bound::Excluded(v) => (1, v), Bound::Unbounded => (2, 0) } }
fn put4(t: B2, o: &mut [u64; 4]) { let (a, b) = unb(t.0); o[0] = a; o[1] = b; let (a, b) = unb(t.1); o[2] = a; o[3] = b; }
#[no_mangle] pub fn range_tuple(lt: u64, lv: u64, ht: u64, hv: u64, o: &mut [u64; 4]) { let r: B2 = (bnd(lt, lv), bnd(ht, hv)); put4(r.into_tuple(), o) }
#[no_mangle] pub fn range_t_half(a: u64, b: u64, o: &mut [u64; 4]) { put4((a..b).into_tuple(), o) }
#[no_mangle] pub fn range_t_incl(a: u64, b: u64, o: &mut [u64; 4]) { put4((a..=b).into_tuple(), o) }
#[no_mangle] pub fn range_t_from(a: u64, o: &mut [u64; 4]) { put4((a..).into_tuple(), o) }
#[no_mangle] pub fn range_t_to(b: u64, o: &mut [u64; 4]) { put4((..b).into_tuple(), o) }
#[no_mangle] pub fn range_t_toi(b: u64, o: &mut [u64; 4]) { put4((..=b).into_tuple(), o) }
#[no_mangle] pub fn range_t_full(o: &mut [u64; 4]) { put4(RangeExt::<u64>::into_tuple(..), o) }
#[no_mangle] pub fn range_h_exceeds(a: u64, b: u64, x: u64, o: &mut u64) { *o = (a..b).exceeds_max(&x) as u64; }
#[no_mangle] pub fn range_h_under(a: u64, b: u64, x: u64, o: &mut u64) { *o = (a..b).under_min(&x) as u64; }
#[no_mangle] pub fn range_h_contains(a: u64, b: u64, x: u64, o: &mut u64) { *o = RangeExt::contains(&(a..b), &x) as u64; }
#[no_mangle] pub fn range_i_contains(a: u64, b: u64, x: u64, o: &mut u64) { *o = RangeExt::contains(&(a..=b), &x) as u64; }
#[no_mangle] pub fn range_cloned(t: u64, v: u64, o: &mut [u64; 2]) {
    let b = bnd(t, v);
    let (a, b) = unb(range::bound_cloned(b.as_ref()));
    o[0] = a; o[1] = b;
}

// tables, as seen through the public interface
#[no_mangle] pub fn tab_gear32(o: &mut u32, i: u8) { *o = gear_table::GEAR_32[i as usize]; }
#[no_mangle] pub fn tab_gear64(o: &mut u64, i: u8) { *o = gear_table::GEAR_64[i as usize]; }
#[no_mangle] pub fn tab_buz(o: &mut u32, i: u8) { *o = buzhash_table::GO_BUZHASH[i as usize]; }
#[no_mangle] pub fn tab_borg(o: &mut u32, i: u8) { *o = buzhash_table::BORG_BUZHASH_BASE[i as usize]; }
#[no_mangle] pub fn borg_table(o: &mut MaybeUninit<Box<[u32; 256]>>, seed: u32) { o.write(buzhash_table::borg_buzhash_table(seed)); }
