//! Compile-time witnesses: this crate type-checks exactly when the sharing guarantees hold.  It is never run.
#![feature(auto_traits, negative_impls)]
#![allow(dead_code, unused)]
use hash_roll::*;
use std::cell::UnsafeCell;

/// holds for a type that reaches no interior mutability, through boxes, references and raw pointers too
pub auto trait NoCell {}
impl<T: ?Sized> !NoCell for UnsafeCell<T> {}
impl<T: ?Sized + NoCell> NoCell for std::sync::Arc<T> {}
/// holds for a type without raw pointers
pub auto trait NoRaw {}
impl<T: ?Sized> !NoRaw for *const T {}
impl<T: ?Sized> !NoRaw for *mut T {}
impl<T: ?Sized + NoRaw> NoRaw for Box<T> {}
impl<T: NoRaw> NoRaw for Vec<T> {}
impl<T: NoRaw> NoRaw for std::collections::VecDeque<T> {}
impl<T: ?Sized + NoRaw> NoRaw for std::sync::Arc<T> {}

fn send<T: Send>() {}
fn sync<T: Sync>() {}
fn nocell<T: NoCell>() {}
fn noraw<T: NoRaw>() {}
fn owned<T: 'static>() {}

/// derives search state and chunker from shared references only, concurrently, and keeps them longer than the borrow
fn shared<C>(c: C, d: &[u8])
where
    C: Chunk + ToChunkIncr + Sync + Send,
    C::SearchState: Send,
    <C as ToChunkIncr>::Incr: Send + ChunkIncr,
{
    let r = &c;
    std::thread::scope(|s| {
        let a = s.spawn(move || { let mut st = r.to_search_state(); let x: (Option<usize>, usize) = r.find_chunk_edge(&mut st, d); st });
        let b = s.spawn(move || { let mut i = r.to_chunk_incr(); let x: Option<usize> = i.push(d); i });
        (a.join().ok(), b.join().ok());
    });
    let kept = (r.to_search_state(), r.to_chunk_incr());
    drop(c);
    drop(kept);
}
#[cfg(not(feature = "neg"))]
mod pos {
use super::*;
fn w1() { send::<gear::Gear32<'static>>() } // W gear.Gear32 send
fn w2() { sync::<gear::Gear32<'static>>() } // W gear.Gear32 sync
fn w3() { nocell::<gear::Gear32<'static>>() } // W gear.Gear32 nocell
fn w4() { noraw::<gear::Gear32<'static>>() } // W gear.Gear32 noraw
fn w5() { owned::<gear::Gear32<'static>>() } // W gear.Gear32 owned
fn w6(c: gear::Gear32<'static>, d: &[u8]) { shared(c, d) } // W gear.Gear32 shared
fn w7() { send::<gear::GearIncr32<'static>>() } // W gear.GearIncr32 send
fn w8() { sync::<gear::GearIncr32<'static>>() } // W gear.GearIncr32 sync
fn w9() { nocell::<gear::GearIncr32<'static>>() } // W gear.GearIncr32 nocell
fn w10() { noraw::<gear::GearIncr32<'static>>() } // W gear.GearIncr32 noraw
fn w11() { owned::<gear::GearIncr32<'static>>() } // W gear.GearIncr32 owned
fn w12() { send::<gear::GearState32>() } // W gear.GearState32 send
fn w13() { sync::<gear::GearState32>() } // W gear.GearState32 sync
fn w14() { nocell::<gear::GearState32>() } // W gear.GearState32 nocell
fn w15() { noraw::<gear::GearState32>() } // W gear.GearState32 noraw
fn w16() { owned::<gear::GearState32>() } // W gear.GearState32 owned
fn w17() { send::<ram::Ram>() } // W ram.Ram send
fn w18() { sync::<ram::Ram>() } // W ram.Ram sync
fn w19() { nocell::<ram::Ram>() } // W ram.Ram nocell
fn w20() { noraw::<ram::Ram>() } // W ram.Ram noraw
fn w21() { owned::<ram::Ram>() } // W ram.Ram owned
fn w22(c: ram::Ram, d: &[u8]) { shared(c, d) } // W ram.Ram shared
fn w23() { send::<ram::RamIncr>() } // W ram.RamIncr send
fn w24() { sync::<ram::RamIncr>() } // W ram.RamIncr sync
fn w25() { nocell::<ram::RamIncr>() } // W ram.RamIncr nocell
fn w26() { noraw::<ram::RamIncr>() } // W ram.RamIncr noraw
fn w27() { owned::<ram::RamIncr>() } // W ram.RamIncr owned
fn w28() { send::<ram::RamState>() } // W ram.RamState send
fn w29() { sync::<ram::RamState>() } // W ram.RamState sync
fn w30() { nocell::<ram::RamState>() } // W ram.RamState nocell
fn w31() { noraw::<ram::RamState>() } // W ram.RamState noraw
fn w32() { owned::<ram::RamState>() } // W ram.RamState owned
fn w33() { send::<mii::Mii>() } // W mii.Mii send
fn w34() { sync::<mii::Mii>() } // W mii.Mii sync
fn w35() { nocell::<mii::Mii>() } // W mii.Mii nocell
fn w36() { noraw::<mii::Mii>() } // W mii.Mii noraw
fn w37() { owned::<mii::Mii>() } // W mii.Mii owned
fn w38(c: mii::Mii, d: &[u8]) { shared(c, d) } // W mii.Mii shared
fn w39() { send::<mii::MiiIncr>() } // W mii.MiiIncr send
fn w40() { sync::<mii::MiiIncr>() } // W mii.MiiIncr sync
fn w41() { nocell::<mii::MiiIncr>() } // W mii.MiiIncr nocell
fn w42() { noraw::<mii::MiiIncr>() } // W mii.MiiIncr noraw
fn w43() { owned::<mii::MiiIncr>() } // W mii.MiiIncr owned
fn w44() { send::<mii::MiiSearchState>() } // W mii.MiiSearchState send
fn w45() { sync::<mii::MiiSearchState>() } // W mii.MiiSearchState sync
fn w46() { nocell::<mii::MiiSearchState>() } // W mii.MiiSearchState nocell
fn w47() { noraw::<mii::MiiSearchState>() } // W mii.MiiSearchState noraw
fn w48() { owned::<mii::MiiSearchState>() } // W mii.MiiSearchState owned
fn w49() { send::<pigz::PigzRsyncable>() } // W pigz.PigzRsyncable send
fn w50() { sync::<pigz::PigzRsyncable>() } // W pigz.PigzRsyncable sync
fn w51() { nocell::<pigz::PigzRsyncable>() } // W pigz.PigzRsyncable nocell
fn w52() { noraw::<pigz::PigzRsyncable>() } // W pigz.PigzRsyncable noraw
fn w53() { owned::<pigz::PigzRsyncable>() } // W pigz.PigzRsyncable owned
fn w54(c: pigz::PigzRsyncable, d: &[u8]) { shared(c, d) } // W pigz.PigzRsyncable shared
fn w55() { send::<pigz::PigzRsyncableIncr>() } // W pigz.PigzRsyncableIncr send
fn w56() { sync::<pigz::PigzRsyncableIncr>() } // W pigz.PigzRsyncableIncr sync
fn w57() { nocell::<pigz::PigzRsyncableIncr>() } // W pigz.PigzRsyncableIncr nocell
fn w58() { noraw::<pigz::PigzRsyncableIncr>() } // W pigz.PigzRsyncableIncr noraw
fn w59() { owned::<pigz::PigzRsyncableIncr>() } // W pigz.PigzRsyncableIncr owned
fn w60() { send::<pigz::PigzRsyncableSearchState>() } // W pigz.PigzRsyncableSearchState send
fn w61() { sync::<pigz::PigzRsyncableSearchState>() } // W pigz.PigzRsyncableSearchState sync
fn w62() { nocell::<pigz::PigzRsyncableSearchState>() } // W pigz.PigzRsyncableSearchState nocell
fn w63() { noraw::<pigz::PigzRsyncableSearchState>() } // W pigz.PigzRsyncableSearchState noraw
fn w64() { owned::<pigz::PigzRsyncableSearchState>() } // W pigz.PigzRsyncableSearchState owned
fn w65() { send::<bup::RollSum>() } // W bup.RollSum send
fn w66() { sync::<bup::RollSum>() } // W bup.RollSum sync
fn w67() { nocell::<bup::RollSum>() } // W bup.RollSum nocell
fn w68() { noraw::<bup::RollSum>() } // W bup.RollSum noraw
fn w69() { owned::<bup::RollSum>() } // W bup.RollSum owned
fn w70(c: bup::RollSum, d: &[u8]) { shared(c, d) } // W bup.RollSum shared
fn w71() { send::<bup::RollSumIncr>() } // W bup.RollSumIncr send
fn w72() { sync::<bup::RollSumIncr>() } // W bup.RollSumIncr sync
fn w73() { nocell::<bup::RollSumIncr>() } // W bup.RollSumIncr nocell
fn w74() { noraw::<bup::RollSumIncr>() } // W bup.RollSumIncr noraw
fn w75() { owned::<bup::RollSumIncr>() } // W bup.RollSumIncr owned
fn w76() { send::<bup::RollSumSearchState>() } // W bup.RollSumSearchState send
fn w77() { sync::<bup::RollSumSearchState>() } // W bup.RollSumSearchState sync
fn w78() { nocell::<bup::RollSumSearchState>() } // W bup.RollSumSearchState nocell
fn w79() { noraw::<bup::RollSumSearchState>() } // W bup.RollSumSearchState noraw
fn w80() { owned::<bup::RollSumSearchState>() } // W bup.RollSumSearchState owned
fn w81() { send::<gzip::GzipRsyncable>() } // W gzip.GzipRsyncable send
fn w82() { sync::<gzip::GzipRsyncable>() } // W gzip.GzipRsyncable sync
fn w83() { nocell::<gzip::GzipRsyncable>() } // W gzip.GzipRsyncable nocell
fn w84() { noraw::<gzip::GzipRsyncable>() } // W gzip.GzipRsyncable noraw
fn w85() { owned::<gzip::GzipRsyncable>() } // W gzip.GzipRsyncable owned
fn w86(c: gzip::GzipRsyncable, d: &[u8]) { shared(c, d) } // W gzip.GzipRsyncable shared
fn w87() { send::<gzip::GzipRsyncableIncr>() } // W gzip.GzipRsyncableIncr send
fn w88() { sync::<gzip::GzipRsyncableIncr>() } // W gzip.GzipRsyncableIncr sync
fn w89() { nocell::<gzip::GzipRsyncableIncr>() } // W gzip.GzipRsyncableIncr nocell
fn w90() { noraw::<gzip::GzipRsyncableIncr>() } // W gzip.GzipRsyncableIncr noraw
fn w91() { owned::<gzip::GzipRsyncableIncr>() } // W gzip.GzipRsyncableIncr owned
fn w92() { send::<gzip::GzipRsyncableSearchState>() } // W gzip.GzipRsyncableSearchState send
fn w93() { sync::<gzip::GzipRsyncableSearchState>() } // W gzip.GzipRsyncableSearchState sync
fn w94() { nocell::<gzip::GzipRsyncableSearchState>() } // W gzip.GzipRsyncableSearchState nocell
fn w95() { noraw::<gzip::GzipRsyncableSearchState>() } // W gzip.GzipRsyncableSearchState noraw
fn w96() { owned::<gzip::GzipRsyncableSearchState>() } // W gzip.GzipRsyncableSearchState owned
fn w97() { send::<fastcdc::FastCdc<'static>>() } // W fastcdc.FastCdc send
fn w98() { sync::<fastcdc::FastCdc<'static>>() } // W fastcdc.FastCdc sync
fn w99() { nocell::<fastcdc::FastCdc<'static>>() } // W fastcdc.FastCdc nocell
fn w100() { noraw::<fastcdc::FastCdc<'static>>() } // W fastcdc.FastCdc noraw
fn w101() { owned::<fastcdc::FastCdc<'static>>() } // W fastcdc.FastCdc owned
fn w102(c: fastcdc::FastCdc<'static>, d: &[u8]) { shared(c, d) } // W fastcdc.FastCdc shared
fn w103() { send::<fastcdc::FastCdcIncr<'static>>() } // W fastcdc.FastCdcIncr send
fn w104() { sync::<fastcdc::FastCdcIncr<'static>>() } // W fastcdc.FastCdcIncr sync
fn w105() { nocell::<fastcdc::FastCdcIncr<'static>>() } // W fastcdc.FastCdcIncr nocell
fn w106() { noraw::<fastcdc::FastCdcIncr<'static>>() } // W fastcdc.FastCdcIncr noraw
fn w107() { owned::<fastcdc::FastCdcIncr<'static>>() } // W fastcdc.FastCdcIncr owned
fn w108() { send::<fastcdc::FastCdcState>() } // W fastcdc.FastCdcState send
fn w109() { sync::<fastcdc::FastCdcState>() } // W fastcdc.FastCdcState sync
fn w110() { nocell::<fastcdc::FastCdcState>() } // W fastcdc.FastCdcState nocell
fn w111() { noraw::<fastcdc::FastCdcState>() } // W fastcdc.FastCdcState noraw
fn w112() { owned::<fastcdc::FastCdcState>() } // W fastcdc.FastCdcState owned
fn w113() { send::<zstd::Zstd>() } // W zstd.Zstd send
fn w114() { sync::<zstd::Zstd>() } // W zstd.Zstd sync
fn w115() { nocell::<zstd::Zstd>() } // W zstd.Zstd nocell
fn w116() { noraw::<zstd::Zstd>() } // W zstd.Zstd noraw
fn w117() { owned::<zstd::Zstd>() } // W zstd.Zstd owned
fn w118(c: zstd::Zstd, d: &[u8]) { shared(c, d) } // W zstd.Zstd shared
fn w119() { send::<zstd::ZstdIncr>() } // W zstd.ZstdIncr send
fn w120() { sync::<zstd::ZstdIncr>() } // W zstd.ZstdIncr sync
fn w121() { nocell::<zstd::ZstdIncr>() } // W zstd.ZstdIncr nocell
fn w122() { noraw::<zstd::ZstdIncr>() } // W zstd.ZstdIncr noraw
fn w123() { owned::<zstd::ZstdIncr>() } // W zstd.ZstdIncr owned
fn w124() { send::<zstd::ZstdSearchState>() } // W zstd.ZstdSearchState send
fn w125() { sync::<zstd::ZstdSearchState>() } // W zstd.ZstdSearchState sync
fn w126() { nocell::<zstd::ZstdSearchState>() } // W zstd.ZstdSearchState nocell
fn w127() { noraw::<zstd::ZstdSearchState>() } // W zstd.ZstdSearchState noraw
fn w128() { owned::<zstd::ZstdSearchState>() } // W zstd.ZstdSearchState owned
fn w129() { send::<zpaq::Zpaq>() } // W zpaq.Zpaq send
fn w130() { sync::<zpaq::Zpaq>() } // W zpaq.Zpaq sync
fn w131() { nocell::<zpaq::Zpaq>() } // W zpaq.Zpaq nocell
fn w132() { noraw::<zpaq::Zpaq>() } // W zpaq.Zpaq noraw
fn w133() { owned::<zpaq::Zpaq>() } // W zpaq.Zpaq owned
fn w134(c: zpaq::Zpaq, d: &[u8]) { shared(c, d) } // W zpaq.Zpaq shared
fn w135() { send::<zpaq::ZpaqIncr>() } // W zpaq.ZpaqIncr send
fn w136() { sync::<zpaq::ZpaqIncr>() } // W zpaq.ZpaqIncr sync
fn w137() { nocell::<zpaq::ZpaqIncr>() } // W zpaq.ZpaqIncr nocell
fn w138() { noraw::<zpaq::ZpaqIncr>() } // W zpaq.ZpaqIncr noraw
fn w139() { owned::<zpaq::ZpaqIncr>() } // W zpaq.ZpaqIncr owned
fn w140() { send::<zpaq::ZpaqSearchState>() } // W zpaq.ZpaqSearchState send
fn w141() { sync::<zpaq::ZpaqSearchState>() } // W zpaq.ZpaqSearchState sync
fn w142() { nocell::<zpaq::ZpaqSearchState>() } // W zpaq.ZpaqSearchState nocell
fn w143() { noraw::<zpaq::ZpaqSearchState>() } // W zpaq.ZpaqSearchState noraw
fn w144() { owned::<zpaq::ZpaqSearchState>() } // W zpaq.ZpaqSearchState owned
fn w145() { send::<zpaq::ZpaqHash>() } // W zpaq.ZpaqHash send
fn w146() { sync::<zpaq::ZpaqHash>() } // W zpaq.ZpaqHash sync
fn w147() { nocell::<zpaq::ZpaqHash>() } // W zpaq.ZpaqHash nocell
fn w148() { noraw::<zpaq::ZpaqHash>() } // W zpaq.ZpaqHash noraw
fn w149() { owned::<zpaq::ZpaqHash>() } // W zpaq.ZpaqHash owned
fn w150() { send::<buzhash::BuzHash<buzhash::BuzHashTableHash<'static>>>() } // W buzhash.BuzHash+table send
fn w151() { sync::<buzhash::BuzHash<buzhash::BuzHashTableHash<'static>>>() } // W buzhash.BuzHash+table sync
fn w152() { nocell::<buzhash::BuzHash<buzhash::BuzHashTableHash<'static>>>() } // W buzhash.BuzHash+table nocell
fn w153() { noraw::<buzhash::BuzHash<buzhash::BuzHashTableHash<'static>>>() } // W buzhash.BuzHash+table noraw
fn w154() { owned::<buzhash::BuzHash<buzhash::BuzHashTableHash<'static>>>() } // W buzhash.BuzHash+table owned
fn w155(c: buzhash::BuzHash<buzhash::BuzHashTableHash<'static>>, d: &[u8]) { shared(c, d) } // W buzhash.BuzHash+table shared
fn w156() { send::<buzhash::BuzHashIncr<buzhash::BuzHashTableHash<'static>>>() } // W buzhash.BuzHashIncr+table send
fn w157() { sync::<buzhash::BuzHashIncr<buzhash::BuzHashTableHash<'static>>>() } // W buzhash.BuzHashIncr+table sync
fn w158() { nocell::<buzhash::BuzHashIncr<buzhash::BuzHashTableHash<'static>>>() } // W buzhash.BuzHashIncr+table nocell
fn w159() { noraw::<buzhash::BuzHashIncr<buzhash::BuzHashTableHash<'static>>>() } // W buzhash.BuzHashIncr+table noraw
fn w160() { owned::<buzhash::BuzHashIncr<buzhash::BuzHashTableHash<'static>>>() } // W buzhash.BuzHashIncr+table owned
fn w161() { send::<buzhash::BuzHash<buzhash::BuzHashTableBufHash>>() } // W buzhash.BuzHash+buf send
fn w162() { sync::<buzhash::BuzHash<buzhash::BuzHashTableBufHash>>() } // W buzhash.BuzHash+buf sync
fn w163() { nocell::<buzhash::BuzHash<buzhash::BuzHashTableBufHash>>() } // W buzhash.BuzHash+buf nocell
fn w164() { noraw::<buzhash::BuzHash<buzhash::BuzHashTableBufHash>>() } // W buzhash.BuzHash+buf noraw
fn w165() { owned::<buzhash::BuzHash<buzhash::BuzHashTableBufHash>>() } // W buzhash.BuzHash+buf owned
fn w166(c: buzhash::BuzHash<buzhash::BuzHashTableBufHash>, d: &[u8]) { shared(c, d) } // W buzhash.BuzHash+buf shared
fn w167() { send::<buzhash::BuzHashIncr<buzhash::BuzHashTableBufHash>>() } // W buzhash.BuzHashIncr+buf send
fn w168() { sync::<buzhash::BuzHashIncr<buzhash::BuzHashTableBufHash>>() } // W buzhash.BuzHashIncr+buf sync
fn w169() { nocell::<buzhash::BuzHashIncr<buzhash::BuzHashTableBufHash>>() } // W buzhash.BuzHashIncr+buf nocell
fn w170() { noraw::<buzhash::BuzHashIncr<buzhash::BuzHashTableBufHash>>() } // W buzhash.BuzHashIncr+buf noraw
fn w171() { owned::<buzhash::BuzHashIncr<buzhash::BuzHashTableBufHash>>() } // W buzhash.BuzHashIncr+buf owned
fn w172() { send::<buzhash::BuzHash<buzhash::BuzHashTableByteSaltHash<'static>>>() } // W buzhash.BuzHash+salt send
fn w173() { sync::<buzhash::BuzHash<buzhash::BuzHashTableByteSaltHash<'static>>>() } // W buzhash.BuzHash+salt sync
fn w174() { nocell::<buzhash::BuzHash<buzhash::BuzHashTableByteSaltHash<'static>>>() } // W buzhash.BuzHash+salt nocell
fn w175() { noraw::<buzhash::BuzHash<buzhash::BuzHashTableByteSaltHash<'static>>>() } // W buzhash.BuzHash+salt noraw
fn w176() { owned::<buzhash::BuzHash<buzhash::BuzHashTableByteSaltHash<'static>>>() } // W buzhash.BuzHash+salt owned
fn w177(c: buzhash::BuzHash<buzhash::BuzHashTableByteSaltHash<'static>>, d: &[u8]) { shared(c, d) } // W buzhash.BuzHash+salt shared
fn w178() { send::<buzhash::BuzHashIncr<buzhash::BuzHashTableByteSaltHash<'static>>>() } // W buzhash.BuzHashIncr+salt send
fn w179() { sync::<buzhash::BuzHashIncr<buzhash::BuzHashTableByteSaltHash<'static>>>() } // W buzhash.BuzHashIncr+salt sync
fn w180() { nocell::<buzhash::BuzHashIncr<buzhash::BuzHashTableByteSaltHash<'static>>>() } // W buzhash.BuzHashIncr+salt nocell
fn w181() { noraw::<buzhash::BuzHashIncr<buzhash::BuzHashTableByteSaltHash<'static>>>() } // W buzhash.BuzHashIncr+salt noraw
fn w182() { owned::<buzhash::BuzHashIncr<buzhash::BuzHashTableByteSaltHash<'static>>>() } // W buzhash.BuzHashIncr+salt owned
fn w183() { send::<buzhash::BuzHashSearchState>() } // W buzhash.BuzHashSearchState send
fn w184() { sync::<buzhash::BuzHashSearchState>() } // W buzhash.BuzHashSearchState sync
fn w185() { nocell::<buzhash::BuzHashSearchState>() } // W buzhash.BuzHashSearchState nocell
fn w186() { noraw::<buzhash::BuzHashSearchState>() } // W buzhash.BuzHashSearchState noraw
fn w187() { owned::<buzhash::BuzHashSearchState>() } // W buzhash.BuzHashSearchState owned
fn w188() { send::<IterSlices<'static, mii::MiiIncr>>() } // W IterSlices send
fn w189() { sync::<IterSlices<'static, mii::MiiIncr>>() } // W IterSlices sync
fn w190() { nocell::<IterSlices<'static, mii::MiiIncr>>() } // W IterSlices nocell
fn w191() { noraw::<IterSlices<'static, mii::MiiIncr>>() } // W IterSlices noraw
fn w192() { owned::<IterSlices<'static, mii::MiiIncr>>() } // W IterSlices owned
fn w193() { send::<IterSlicesStrict<'static, mii::MiiIncr>>() } // W IterSlicesStrict send
fn w194() { sync::<IterSlicesStrict<'static, mii::MiiIncr>>() } // W IterSlicesStrict sync
fn w195() { nocell::<IterSlicesStrict<'static, mii::MiiIncr>>() } // W IterSlicesStrict nocell
fn w196() { noraw::<IterSlicesStrict<'static, mii::MiiIncr>>() } // W IterSlicesStrict noraw
fn w197() { owned::<IterSlicesStrict<'static, mii::MiiIncr>>() } // W IterSlicesStrict owned
fn w198<H: buzhash::BuzHashHash + Send>() { send::<buzhash::BuzHash<H>>() } // W buzhash.BuzHash<H> send
fn w199<H: buzhash::BuzHashHash + Sync>() { sync::<buzhash::BuzHash<H>>() } // W buzhash.BuzHash<H> sync
fn w200<H: buzhash::BuzHashHash + NoCell>() { nocell::<buzhash::BuzHash<H>>() } // W buzhash.BuzHash<H> nocell
fn w201<H: buzhash::BuzHashHash + Send>() { send::<buzhash::BuzHashIncr<H>>() } // W buzhash.BuzHashIncr<H> send
fn w202<H: buzhash::BuzHashHash + Sync>() { sync::<buzhash::BuzHashIncr<H>>() } // W buzhash.BuzHashIncr<H> sync
fn w203<H: buzhash::BuzHashHash + NoCell>() { nocell::<buzhash::BuzHashIncr<H>>() } // W buzhash.BuzHashIncr<H> nocell
fn w204<C: ChunkIncr + Send + 'static>() { send::<IterSlices<'static, C>>() } // W IterSlices<C> send
fn w205<C: ChunkIncr + Sync + 'static>() { sync::<IterSlices<'static, C>>() } // W IterSlices<C> sync
fn w206<C: ChunkIncr + NoCell + 'static>() { nocell::<IterSlices<'static, C>>() } // W IterSlices<C> nocell
fn w207<C: ChunkIncr + Send + 'static>() { send::<IterSlicesStrict<'static, C>>() } // W IterSlicesStrict<C> send
fn w208<C: ChunkIncr + Sync + 'static>() { sync::<IterSlicesStrict<'static, C>>() } // W IterSlicesStrict<C> sync
fn w209<C: ChunkIncr + NoCell + 'static>() { nocell::<IterSlicesStrict<'static, C>>() } // W IterSlicesStrict<C> nocell
fn sig1<C: Chunk>() { let f: for<'a, 'b, 'c> fn(&'a C, &'b mut C::SearchState, &'c [u8]) -> (Option<usize>, usize) = C::find_chunk_edge; } // W trait.Chunk find_chunk_edge(&self)
fn sig2<C: Chunk>() { let f: for<'a> fn(&'a C) -> C::SearchState = C::to_search_state; } // W trait.Chunk to_search_state(&self)
fn sig3<C: ToChunkIncr>() { let f: for<'a> fn(&'a C) -> C::Incr = C::to_chunk_incr; } // W trait.ToChunkIncr to_chunk_incr(&self)
fn sig4<C: ChunkIncr>() { let f: for<'a, 'b> fn(&'a mut C, &'b [u8]) -> Option<usize> = C::push; } // W trait.ChunkIncr push(&mut self)
fn sig5<H: buzhash::BuzHashHash>() { let f: for<'a> fn(&'a H, u8) -> u32 = H::hash; } // W trait.BuzHashHash hash(&self)
}
#[cfg(feature = "neg")]
mod neg {
use super::*;
struct BadCell { k: std::cell::Cell<u32> }
struct BadBoxAtomic { k: Box<std::sync::atomic::AtomicU64> }
struct BadMutex { k: Vec<std::sync::Mutex<u8>> }
struct BadRc { k: std::rc::Rc<u8> }
struct BadRef<'a> { k: &'a std::sync::OnceLock<u8> }
struct BadPtr { k: *const u8 }
struct Borrowed<'a> { k: &'a u8 }
fn n1() { nocell::<BadCell>() } // N
fn n2() { sync::<BadCell>() } // N
fn n3() { nocell::<BadBoxAtomic>() } // N
fn n4() { nocell::<BadMutex>() } // N
fn n5() { send::<BadRc>() } // N
fn n6() { nocell::<BadRef<'static>>() } // N
fn n7() { noraw::<BadPtr>() } // N
fn n8() { send::<BadPtr>() } // N
fn n9() { nocell::<std::sync::Arc<std::cell::Cell<u8>>>() } // N
}
