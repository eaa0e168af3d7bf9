@module save
@use base
@code
// ---- the file system, as far as it matters: what each path holds ----
#[verifier::external_body]
pub tracked struct Fs {}
impl Fs { pub uninterp spec fn files(&self) -> Map<Seq<char>, Seq<char>>; }
pub open spec fn elsewhere(a: Map<Seq<char>, Seq<char>>, b: Map<Seq<char>, Seq<char>>, p: Seq<char>) -> bool { a.remove(p) == b.remove(p) }
#[verifier::external_body]
pub struct Error {}
pub struct File { pub path: Ghost<Seq<char>> }
// creating truncates; a failure may leave anything at that path
#[verifier::external_body]
pub fn vx_fs_file_create(Tracked(fs): Tracked<&mut Fs>, p: &str) -> (r: Result<File, Error>)
    ensures elsewhere(final(fs).files(), old(fs).files(), p@), r matches Ok(f) ==> f.path@ == p@ && final(fs).files() == old(fs).files().insert(p@, Seq::empty()),
{ unimplemented!() }
// opening for reading changes nothing, and nothing can be written to it
#[verifier::external_body]
pub fn vx_fs_write(Tracked(fs): Tracked<&mut Fs>, p: &str, s: &str) -> (r: Result<(), Error>)
    ensures elsewhere(final(fs).files(), old(fs).files(), p@), r is Ok ==> final(fs).files() == old(fs).files().insert(p@, s@),
{ unimplemented!() }
pub trait VxWrite {
    spec fn target(&self) -> Seq<char>;
    // everything is handed over, or an error is returned
    fn vx_write_str(&self, Tracked(fs): Tracked<&mut Fs>, s: &str, nl: bool) -> (r: Result<(), Error>)
        ensures elsewhere(final(fs).files(), old(fs).files(), self.target()), r is Ok ==> final(fs).files() == old(fs).files().insert(self.target(), old(fs).files()[self.target()] + s@ + if nl { seq!['\n'] } else { seq![] });
    fn vx_write_all<B: VxBytes>(&self, Tracked(fs): Tracked<&mut Fs>, s: B) -> (r: Result<(), Error>)
        ensures elsewhere(final(fs).files(), old(fs).files(), self.target()), r is Ok ==> final(fs).files() == old(fs).files().insert(self.target(), old(fs).files()[self.target()] + s.chars());
    fn vx_flush(&self, Tracked(fs): Tracked<&mut Fs>) -> (r: Result<(), Error>) ensures final(fs).files() == old(fs).files();
    fn vx_sync_all(&self, Tracked(fs): Tracked<&mut Fs>) -> (r: Result<(), Error>) ensures final(fs).files() == old(fs).files();
}
impl VxWrite for File {
    open spec fn target(&self) -> Seq<char> { self.path@ }
    #[verifier::external_body] fn vx_write_str(&self, Tracked(fs): Tracked<&mut Fs>, s: &str, nl: bool) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body] fn vx_write_all<B: VxBytes>(&self, Tracked(fs): Tracked<&mut Fs>, s: B) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body] fn vx_flush(&self, Tracked(fs): Tracked<&mut Fs>) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body] fn vx_sync_all(&self, Tracked(fs): Tracked<&mut Fs>) -> (r: Result<(), Error>) { unimplemented!() }
}
// the UTF-8 encoding of a text stands for the text
pub struct Utf8 { pub of: Ghost<Seq<char>> }
pub trait VxBytes { spec fn chars(&self) -> Seq<char>; }
impl VxBytes for Utf8 { open spec fn chars(&self) -> Seq<char> { self.of@ } }
pub trait VxText8 { spec fn txt(&self) -> Seq<char>; fn vx_bytes(&self) -> (r: Utf8) ensures r.of@ == self.txt(); }
impl VxText8 for str { open spec fn txt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_bytes(&self) -> (r: Utf8) { unimplemented!() } }
impl VxText8 for String { open spec fn txt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_bytes(&self) -> (r: Utf8) { unimplemented!() } }
@end
@file core/utils.rs
@fn save_to_file world
ret r
ensures r is Ok ==> final(vx_fs).files() =~= old(vx_fs).files().insert(filename@, content@),
    elsewhere(final(vx_fs).files(), old(vx_fs).files(), filename@),
