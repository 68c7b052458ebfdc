//@@ props P08 P22
//@@ include head.rs
use vstd::string::*;
use vstd::utf8::*;
//@@ include chars.rs
//@@ include names.rs
#[verifier::external_body]
pub struct Value { x: u8 }
//@@ include btree.rs
//@@ include pool.rs
//@@ include errors.rs
//@@ include update.rs
//@@ item prost-reflect/src/descriptor/types.rs struct FileDescriptorSet
/// prost_types::FileDescriptorSet
pub struct ProstSet { pub file: Vec<ProstFile> }
// ---- assumed: prost decodes a message from what a buffer holds, and `from_prost` depends only on its argument
#[verifier::external_body] pub struct Input { x: u8 }
pub uninterp spec fn decoded_set(b: Input) -> Option<Seq<FileDescriptorProto>>;
pub uninterp spec fn decoded_file(b: Input) -> Option<FileDescriptorProto>;
pub uninterp spec fn from_prost(f: ProstFile) -> FileDescriptorProto;
pub open spec fn from_all(v: Seq<ProstFile>) -> Seq<FileDescriptorProto> { Seq::new(v.len(), |i: int| from_prost(v[i])) }
impl FileDescriptorSet {
    #[verifier::external_body]
    fn decode(b: Input) -> (r: Result<FileDescriptorSet, DecodeError>)
        ensures match r { Ok(s) => decoded_set(b) == Some(s.file@), Err(_) => decoded_set(b) is None } { unimplemented!() }
}
impl FileDescriptorProto {
    #[verifier::external_body]
    fn decode(b: Input) -> (r: Result<FileDescriptorProto, DecodeError>)
        ensures match r { Ok(s) => decoded_file(b) == Some(s), Err(_) => decoded_file(b) is None } { unimplemented!() }
    #[verifier::external_body]
    fn from_prost(f: ProstFile) -> (r: Self) ensures r == from_prost(f) { unimplemented!() }
}
#[verifier::external_body]
fn any_error(e: DecodeError) -> DescriptorError { unimplemented!() }
/// An iterator of files, each turned by a function
#[verifier::external_body]
fn each<A, B, F: Fn(A) -> B>(v: Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|a: A| #[trigger] call_requires(f, (a,)),
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (v@[i],), #[trigger] r@[i]) { unimplemented!() }
fn once<A>(a: A) -> (r: Vec<A>) ensures r@ == seq![a] { let mut v = Vec::new(); v.push(a); v }
fn same<A>(a: A) -> (r: A) ensures r == a { a }
// ---- what an update does
/// A pool between updates (see `settled`); that an update which succeeds leaves it so is assumed.
pub open spec fn between(p: DescriptorPoolInner) -> bool { small(p) && exists|o: DescriptorPoolOffsets| settled(o, p) }
/// Everything declared in b is declared in p as it was.
pub open spec fn kept(b: DescriptorPoolInner, p: DescriptorPoolInner) -> bool { exists|o: DescriptorPoolOffsets| settled(o, b) && adding(o, b, p) }
/// The result of adding files, in order, to a pool: defined by build_files.
pub uninterp spec fn builds(files: Seq<FileDescriptorProto>, b: DescriptorPoolInner, ok: bool, p: DescriptorPoolInner) -> bool;
pub open spec fn update(b: DescriptorPoolInner, ok: bool, p: DescriptorPoolInner) -> bool { if ok { kept(b, p) } else { restored(b, p) } }
/// Adding the files `files` denotes, if it denotes any.
pub open spec fn adds(files: Option<Seq<FileDescriptorProto>>, b: DescriptorPoolInner, ok: bool, p: DescriptorPoolInner) -> bool {
    match files { Some(f) => builds(f, b, ok, p) && update(b, ok, p), None => !ok && p == b }
}
pub open spec fn files_of_set(b: Input) -> Option<Seq<FileDescriptorProto>> { decoded_set(b) }
pub open spec fn file_of(b: Input) -> Option<Seq<FileDescriptorProto>> { match decoded_file(b) { Some(f) => Some(seq![f]), None => None } }
pub uninterp spec fn new_pool() -> DescriptorPoolInner;
impl DescriptorPool {
    /// proved in declare.rs
    #[verifier::external_body]
    fn build_files(&mut self, files: Vec<FileDescriptorProto>) -> (r: Result<(), DescriptorError>)
        requires between(old(self).inner.v),
        ensures update(old(self).inner.v, r is Ok, final(self).inner.v), builds(files@, old(self).inner.v, r is Ok, final(self).inner.v) { unimplemented!() }
    /// derived: no files
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.inner.v == new_pool(), between(r.inner.v) { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.inner.v == self.inner.v { unimplemented!() }
//@@ fn prost-reflect/src/descriptor/api.rs DescriptorPool::new
//@@ ret r
//@@ spec
    ensures r.inner.v == new_pool(), between(r.inner.v),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs DescriptorPool::add_file_descriptor_protos
//@@ sig fn add_file_descriptor_protos(&mut self, files: Vec<ProstFile>) -> (r: Result<(), DescriptorError>)
//@@ subst? | $f:id | types :: FileDescriptorProto :: from_prost ( $f:id ) ==>> types::FileDescriptorProto::from_prost
//@@ subst files . into_iter ( ) . map ( types :: FileDescriptorProto :: from_prost ) ==>> each(files, |f_: ProstFile| -> (g_: FileDescriptorProto) ensures g_ == from_prost(f_) { FileDescriptorProto::from_prost(f_) })
//@@ subst self . build_files ( $x ) ==>> { let files_ = same($x); proof { assert(files_@ =~= from_all(given_)); } self.build_files(files_) }
//@@ start
    let ghost given_ = $p1@;
//@@ spec
    requires between(old(self).inner.v),
    ensures adds(Some(from_all($p1@)), old(self).inner.v, r is Ok, final(self).inner.v),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs DescriptorPool::add_file_descriptor_proto
//@@ sig fn add_file_descriptor_proto(&mut self, file: ProstFile) -> (r: Result<(), DescriptorError>)
//@@ subst? iter :: once ==>> once
//@@ start
    proof { assert(from_all(seq![$p1]) =~= seq![from_prost($p1)]); }
//@@ spec
    requires between(old(self).inner.v),
    ensures adds(Some(seq![from_prost($p1)]), old(self).inner.v, r is Ok, final(self).inner.v),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs DescriptorPool::add_file_descriptor_set
//@@ sig fn add_file_descriptor_set(&mut self, file_descriptor_set: ProstSet) -> (r: Result<(), DescriptorError>)
//@@ spec
    requires between(old(self).inner.v),
    ensures adds(Some(from_all($p1.file@)), old(self).inner.v, r is Ok, final(self).inner.v),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs DescriptorPool::from_file_descriptor_set
//@@ sig fn from_file_descriptor_set(file_descriptor_set: ProstSet) -> (r: Result<Self, DescriptorError>)
//@@ spec
    ensures match r { Ok(p) => adds(Some(from_all($p0.file@)), new_pool(), true, p.inner.v), Err(_) => true },
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs DescriptorPool::decode_file_descriptor_proto
//@@ sig fn decode_file_descriptor_proto(&mut self, bytes: Input) -> (r: Result<(), DescriptorError>)
//@@ subst? types :: FileDescriptorProto ==>> FileDescriptorProto
//@@ subst? . map_err ( | $e:id | $b:b ) ==>> .map_err(|$e: DecodeError| -> (e_: DescriptorError) { any_error($e) })
//@@ subst? iter :: once ==>> once
//@@ spec
    requires between(old(self).inner.v),
    ensures adds(file_of($p1), old(self).inner.v, r is Ok, final(self).inner.v),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs DescriptorPool::decode_file_descriptor_set
//@@ sig fn decode_file_descriptor_set(&mut self, bytes: Input) -> (r: Result<(), DescriptorError>)
//@@ subst? types :: FileDescriptorSet ==>> FileDescriptorSet
//@@ subst? . map_err ( | $e:id | $b:b ) ==>> .map_err(|$e: DecodeError| -> (e_: DescriptorError) { any_error($e) })
//@@ spec
    requires between(old(self).inner.v),
    ensures adds(files_of_set($p1), old(self).inner.v, r is Ok, final(self).inner.v),
//@@ end
//@@ fn prost-reflect/src/descriptor/api.rs DescriptorPool::decode
//@@ sig fn decode(bytes: Input) -> (r: Result<Self, DescriptorError>)
//@@ subst? types :: FileDescriptorSet ==>> FileDescriptorSet
//@@ subst? . map_err ( | $e:id | $b:b ) ==>> .map_err(|$e: DecodeError| -> (e_: DescriptorError) { any_error($e) })
//@@ subst? . file . into_iter ( ) ==>> .file
//@@ spec
    ensures match r { Ok(p) => adds(files_of_set($p0), new_pool(), true, p.inner.v), Err(_) => true },
//@@ end
}
// ---- P22: the global pool
/// The well-known types (an uninterpreted set of names: what make_wkt_descriptor_pool declares).
pub uninterp spec fn well_known() -> Set<Seq<char>>;
pub open spec fn holds(p: DescriptorPoolInner) -> bool { forall|n: Seq<char>| #[trigger] well_known().contains(n) ==> p.names@.contains_key(n) }
/// assumed: the generated pool of the well-known types is accepted
#[verifier::external_body]
fn make_wkt_descriptor_pool() -> (r: Result<DescriptorPool, DescriptorError>) ensures r is Ok, holds(r->Ok_0.inner.v), between(r->Ok_0.inner.v) { unimplemented!() }
/// One critical section: what the pool held when the lock was taken, and when it was released.
pub type Section = (DescriptorPoolInner, DescriptorPoolInner);
// assumed: std's OnceLock and Mutex. Threads are ordered by the lock, so that one thread finds in the pool what some
// sequence of critical sections of all threads made of the first value; the view is the sections of the calling thread.
// The guard is released at the end of its scope: it is a mutable borrow of the world, and a second lock in its scope is an error.
#[verifier::external_body] pub struct World { x: u8 }
#[verifier::external_body] pub struct Mutex { x: u8 }
#[verifier::external_body] #[derive(Debug)] pub struct Poisoned { x: u8 }
impl View for World { type V = Seq<Section>; uninterp spec fn view(&self) -> Seq<Section>; }
impl View for Mutex { type V = Seq<Section>; uninterp spec fn view(&self) -> Seq<Section>; }
impl Mutex {
    #[verifier::external_body]
    fn new(p: DescriptorPool) -> (r: Mutex) requires holds(p.inner.v), between(p.inner.v) { unimplemented!() }
    /// the lock invariant: every section leaves the well-known types in place (proved for each section below)
    #[verifier::external_body]
    fn lock(&mut self) -> (r: Result<&mut DescriptorPool, Poisoned>)
        ensures r is Ok, holds(r->Ok_0.inner.v), between(r->Ok_0.inner.v), final(self)@ == old(self)@.push((r->Ok_0.inner.v, final(r->Ok_0).inner.v)) { unimplemented!() }
}
impl World {
    #[verifier::external_body]
    fn get_or_init<F: FnOnce() -> Mutex>(&mut self, f: F) -> (r: &mut Mutex)
        requires call_requires(f, ()),
        ensures r@ == old(self)@, final(self)@ == final(r)@ { unimplemented!() }
}
/// Exactly one critical section was added.
pub open spec fn one_section(a: Seq<Section>, b: Seq<Section>) -> bool { b.len() > 0 && b == a.push(b.last()) && holds(b.last().1) }
//@@ fn prost-reflect/src/descriptor/global.rs instance
//@@ sig fn instance(world: &mut World) -> (r: &mut DescriptorPool)
//@@ subst? crate :: reflect :: make_wkt_descriptor_pool ==>> make_wkt_descriptor_pool
//@@ subst INSTANCE ==>> world
//@@ spec
    ensures holds(r.inner.v), between(r.inner.v), final(world)@ == old(world)@.push((r.inner.v, final(r).inner.v)),
//@@ end
impl DescriptorPool {
//@@ fn prost-reflect/src/descriptor/global.rs DescriptorPool::global
//@@ sig fn global(world: &mut World) -> (r: DescriptorPool)
//@@ subst? DescriptorPool :: global ( ) ==>> DescriptorPool::global(world)
//@@ subst? instance ( ) ==>> instance(world)
//@@ spec
    // P22: a read is one section that changes nothing
    ensures one_section(old(world)@, final(world)@), final(world)@.last() == (r.inner.v, r.inner.v),
//@@ end
//@@ fn prost-reflect/src/descriptor/global.rs DescriptorPool::decode_global_file_descriptor_set
//@@ sig fn decode_global_file_descriptor_set(bytes: Input, world: &mut World) -> (r: Result<(), DescriptorError>)
//@@ subst? DescriptorPool :: global ( ) ==>> DescriptorPool::global(world)
//@@ subst? instance ( ) ==>> instance(world)
//@@ spec
    // P22: an addition is one section, which does what the same addition does to any pool
    ensures one_section(old(world)@, final(world)@), adds(files_of_set($p0), final(world)@.last().0, r is Ok, final(world)@.last().1),
//@@ end
//@@ fn prost-reflect/src/descriptor/global.rs DescriptorPool::add_global_file_descriptor_proto
//@@ sig fn add_global_file_descriptor_proto(file: ProstFile, world: &mut World) -> (r: Result<(), DescriptorError>)
//@@ subst? DescriptorPool :: global ( ) ==>> DescriptorPool::global(world)
//@@ subst? instance ( ) ==>> instance(world)
//@@ spec
    ensures one_section(old(world)@, final(world)@), adds(Some(seq![from_prost($p0)]), final(world)@.last().0, r is Ok, final(world)@.last().1),
//@@ end
}
fn main() {}
}
