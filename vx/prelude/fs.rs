// Assumed contracts on files, paths, environment and the command line parser (trusted).
// The file system is an explicit argument `vx_w` (see the extraction rules): the bytes behind every file identity
// and the set of paths that are folders.
pub ghost struct Disk { pub files: Map<int, Seq<u8>>, pub dirs: Set<Seq<char>> }
#[verifier::external_body]
pub struct World { p: u8 }
impl View for World { type V = Disk; uninterp spec fn view(&self) -> Disk; }
// which file a path names; nobody else moves files or links meanwhile
pub uninterp spec fn node(p: Seq<char>) -> int;
pub uninterp spec fn canon(p: Seq<char>) -> Seq<char>;
pub uninterp spec fn stem_of(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn ext_of(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn can_mkdir(d: Disk, p: Seq<char>) -> bool;
pub uninterp spec fn creatable(dirs: Set<Seq<char>>, n: int) -> bool;
pub uninterp spec fn pic_decodable(f: Option<ImageFormat>, b: Seq<u8>) -> bool;
pub uninterp spec fn pic_decoded(f: Option<ImageFormat>, b: Seq<u8>) -> Pic;
pub uninterp spec fn pic_encodable(f: ImageFormat, p: Pic) -> bool;
pub uninterp spec fn pic_encoded(f: ImageFormat, p: Pic) -> Seq<u8>;
pub uninterp spec fn fmt_ext(e: Seq<char>) -> Option<ImageFormat>;
pub open spec fn fmt_of(p: Seq<char>) -> Option<ImageFormat> { match ext_of(p) { Some(e) => fmt_ext(e), None => None } }
pub open spec fn plain(e: Seq<char>) -> bool { forall|i: int| 0 <= i < e.len() ==> #[trigger] e[i] != '.' && e[i] != '/' }
pub open spec fn flat_name(e: Seq<char>) -> bool { forall|i: int| 0 <= i < e.len() ==> #[trigger] e[i] != '/' }
pub broadcast axiom fn ax_canon(p: Seq<char>, x: Seq<char>) ensures #[trigger] node(canon(p) + seq!['/'] + x) == node(p + seq!['/'] + x);
pub broadcast axiom fn ax_canon_len(p: Seq<char>) ensures #[trigger] canon(p).len() > 0;
pub broadcast axiom fn ax_stem(p: Seq<char>) ensures (#[trigger] stem_of(p)) is Some ==> stem_of(p)->Some_0.len() > 0 && flat_name(stem_of(p)->Some_0);
pub broadcast axiom fn ax_ext_plain(p: Seq<char>) ensures (#[trigger] ext_of(p)) is Some ==> plain(ext_of(p)->Some_0);
// the last extension of a path that ends in a name with something before the dot
pub broadcast axiom fn ax_ext(a: Seq<char>, e: Seq<char>) requires plain(e), a.len() > 0, a.last() != '/' ensures #[trigger] ext_of(a + seq!['.'] + e) == Some(e);
pub proof fn lemma_cat_nil(a: Seq<char>) ensures Seq::<char>::empty() + a == a { assert(Seq::<char>::empty() + a =~= a); }
pub broadcast proof fn lemma_cat_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #[trigger] (a + (b + c)) == a + b + c { assert(a + (b + c) =~= a + b + c); }
pub broadcast proof fn lemma_cat_empty(a: Seq<char>) ensures #[trigger] (Seq::<char>::empty() + a) == a { assert(Seq::<char>::empty() + a =~= a); }

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum ImageFormat { Png, Jpeg, Gif, WebP, Pnm, Tiff, Tga, Dds, Bmp, Ico, Hdr, OpenExr, Farbfeld, Avif, Other }
#[verifier::external_body] pub struct VxIoError { p: u8 }
impl ImageFormat {
    #[verifier::external_body] pub fn from_path<P: VxPathLike + ?Sized>(p: &P) -> (r: Result<ImageFormat, VxIoError>)
        ensures (r is Ok) == (fmt_of(p.pchars()) is Some), r is Ok ==> Some(r->Ok_0) == fmt_of(p.pchars()) { unimplemented!() }
    #[verifier::external_body] pub fn from_extension<P: VxPathLike + ?Sized>(p: &P) -> (r: Option<ImageFormat>) ensures r == fmt_ext(p.pchars()) { unimplemented!() }
}
#[verifier::external_body] pub struct Path { p: u8 }
impl View for Path { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body] pub struct PathBuf { p: u8 }
impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body] pub struct OsStr { p: u8 }
impl View for OsStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub trait VxPathLike { spec fn pchars(&self) -> Seq<char>; }
impl VxPathLike for str { open spec fn pchars(&self) -> Seq<char> { self@ } }
impl VxPathLike for String { open spec fn pchars(&self) -> Seq<char> { self@ } }
impl VxPathLike for Path { open spec fn pchars(&self) -> Seq<char> { self@ } }
impl VxPathLike for PathBuf { open spec fn pchars(&self) -> Seq<char> { self@ } }
impl VxPathLike for OsStr { open spec fn pchars(&self) -> Seq<char> { self@ } }
impl<'b, S: VxPathLike + ?Sized> VxPathLike for &'b S { open spec fn pchars(&self) -> Seq<char> { (**self).pchars() } }
pub uninterp spec fn join_of(p: Seq<char>, x: Seq<char>) -> Seq<char>;
pub broadcast axiom fn ax_join(p: Seq<char>, x: Seq<char>)
    ensures p.len() > 0 && x.len() > 0 && x[0] != '/' ==> node(#[trigger] join_of(p, x)) == node(p + seq!['/'] + x) && ext_of(join_of(p, x)) == ext_of(x),
        p.len() == 0 ==> join_of(p, x) == x;
// what the tool can name is text

impl Path {
    #[verifier::external_body] pub fn new<'a, S: VxPathLike + ?Sized>(s: &'a S) -> (r: &'a Path) ensures r@ == s.pchars() { unimplemented!() }
    #[verifier::external_body] pub fn vx_is_dir(&self, w: &World) -> (r: bool) ensures r == w@.dirs.contains(self@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_exists(&self, w: &World) -> (r: bool) ensures r == (w@.dirs.contains(self@) || w@.files.contains_key(node(self@))) { unimplemented!() }
    #[verifier::external_body] pub fn vx_canonicalize(&self, w: &World) -> (r: Result<PathBuf, VxIoError>)
        ensures w@.dirs.contains(self@) && self@.len() > 0 ==> r is Ok, r is Ok ==> r->Ok_0@ == canon(self@) { unimplemented!() }
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some, r->Some_0@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn file_stem(&self) -> (r: Option<&OsStr>) ensures (r is Some) == (stem_of(self@) is Some), r is Some ==> r->Some_0@ == stem_of(self@)->Some_0 { unimplemented!() }
    #[verifier::external_body] pub fn extension(&self) -> (r: Option<&OsStr>) ensures (r is Some) == (ext_of(self@) is Some), r is Some ==> r->Some_0@ == ext_of(self@)->Some_0 { unimplemented!() }
    #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&OsStr>) { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&Path>) { unimplemented!() }
    #[verifier::external_body] pub fn join<S: VxPathLike>(&self, s: S) -> (r: PathBuf) ensures r@ == join_of(self@, s.pchars()) { unimplemented!() }
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some, r->Some_0@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn as_path(&self) -> (r: &Path) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn join<S: VxPathLike>(&self, s: S) -> (r: PathBuf) ensures r@ == join_of(self@, s.pchars()) { unimplemented!() }
    #[verifier::external_body] pub fn vx_canonicalize(&self, w: &World) -> (r: Result<PathBuf, VxIoError>)
        ensures w@.dirs.contains(self@) && self@.len() > 0 ==> r is Ok, r is Ok ==> r->Ok_0@ == canon(self@) { unimplemented!() }
}
impl OsStr {
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some, r->Some_0@ == self@ { unimplemented!() }
}
pub fn vx_exit(code: i32) -> ! /*IF:accept*/ requires false /*END*/ { vx_panic() }
// `format!` with plain placeholders
pub trait VxDisp { spec fn dchars(&self) -> Seq<char>; fn vx_str(&self) -> (r: &str) ensures r@ == self.dchars(); }
impl VxDisp for str { open spec fn dchars(&self) -> Seq<char> { self@ } fn vx_str(&self) -> (r: &str) { self } }
impl VxDisp for String { open spec fn dchars(&self) -> Seq<char> { self@ } fn vx_str(&self) -> (r: &str) { self.as_str() } }
impl<'b, S: VxDisp + ?Sized> VxDisp for &'b S { open spec fn dchars(&self) -> Seq<char> { (**self).dchars() } fn vx_str(&self) -> (r: &str) { (**self).vx_str() } }
pub fn vx_push_disp<S: VxDisp + ?Sized>(f: &mut String, s: &S) ensures final(f)@ == old(f)@ + s.dchars() { f.vx_push_str(s.vx_str()) }
impl VxToOwned for String { type T = String; open spec fn to_ens(&self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { self.clone() } }
impl VxClone for String { open spec fn cloned(&self, r: Self) -> bool { r@ == self@ } #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { self.clone() } }
// opened files
#[verifier::external_body] pub struct File { p: u8 }
impl File { pub uninterp spec fn at(&self) -> int; }
#[verifier::external_body] pub fn vx_file_create<P: VxPathLike>(w: &mut World, p: P) -> (r: Result<File, VxIoError>)
    ensures creatable(old(w)@.dirs, node(p.pchars())) ==> r is Ok, final(w)@.dirs == old(w)@.dirs,
        r is Ok ==> r->Ok_0.at() == node(p.pchars()) && final(w)@.files == old(w)@.files.insert(node(p.pchars()), Seq::<u8>::empty()),
        r is Err ==> final(w)@.files == old(w)@.files { unimplemented!() }
#[verifier::external_body] pub fn vx_create_dir_all<P: VxPathLike>(w: &mut World, p: P) -> (r: Result<(), VxIoError>)
    ensures can_mkdir(old(w)@, p.pchars()) ==> r is Ok, final(w)@.files == old(w)@.files, old(w)@.dirs.subset_of(final(w)@.dirs), r is Ok ==> final(w)@.dirs.contains(p.pchars()) { unimplemented!() }
#[verifier::external_body] pub fn vx_image_open<P: VxPathLike>(w: &World, p: P) -> (r: Result<image::DynamicImage, VxIoError>)
    ensures w@.files.contains_key(node(p.pchars())) && pic_decodable(fmt_of(p.pchars()), w@.files[node(p.pchars())]) ==> r is Ok,
        r is Ok ==> w@.files.contains_key(node(p.pchars())) && r->Ok_0@ == pic_decoded(fmt_of(p.pchars()), w@.files[node(p.pchars())]) { unimplemented!() }
impl image::DynamicImage {
    #[verifier::external_body] pub fn vx_write_to(&self, w: &mut World, f: &mut File, fmt: ImageFormat) -> (r: Result<(), VxIoError>)
        requires old(w)@.files.contains_key(old(f).at()), old(w)@.files[old(f).at()].len() == 0
        ensures pic_encodable(fmt, self@) ==> r is Ok, final(w)@.dirs == old(w)@.dirs, final(f).at() == old(f).at(),
            r is Ok ==> final(w)@.files == old(w)@.files.insert(old(f).at(), pic_encoded(fmt, self@)) { unimplemented!() }
    // saving by path: the file is created and holds the picture in the format of the path's extension
    #[verifier::external_body] pub fn vx_save<P: VxPathLike>(&self, w: &mut World, p: P) -> (r: Result<(), VxIoError>)
        ensures creatable(old(w)@.dirs, node(p.pchars())) && fmt_of(p.pchars()) is Some && pic_encodable(fmt_of(p.pchars())->Some_0, self@) ==> r is Ok, final(w)@.dirs == old(w)@.dirs,
            r is Ok ==> fmt_of(p.pchars()) is Some && final(w)@.files == old(w)@.files.insert(node(p.pchars()), pic_encoded(fmt_of(p.pchars())->Some_0, self@)) { unimplemented!() }
    #[verifier::external_body] pub fn vx_save_with_format<P: VxPathLike>(&self, w: &mut World, p: P, f: ImageFormat) -> (r: Result<(), VxIoError>)
        ensures creatable(old(w)@.dirs, node(p.pchars())) && pic_encodable(f, self@) ==> r is Ok, final(w)@.dirs == old(w)@.dirs,
            r is Ok ==> final(w)@.files == old(w)@.files.insert(node(p.pchars()), pic_encoded(f, self@)) { unimplemented!() }
}
impl image::ColorType { #[verifier::external_body] pub fn channel_count(self) -> u8 { unimplemented!() } }
#[verifier::external_body] pub struct Instant { p: u8 }
impl Instant { #[verifier::external_body] pub fn now() -> Instant { unimplemented!() } }
// the command line
pub uninterp spec fn cmdline() -> Seq<Seq<char>>;
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
// the name of the program comes first
#[verifier::external_body] pub fn vx_args() -> (r: Vec<String>) ensures texts(r@) == cmdline(), r@.len() > 0 { unimplemented!() }
// getopts: what was declared decides how the arguments are read
pub ghost enum OptKind { Arg, Flag }
#[verifier::external_body] pub struct Options { p: u8 }
impl View for Options { type V = Map<(Seq<char>, Seq<char>), OptKind>; uninterp spec fn view(&self) -> Map<(Seq<char>, Seq<char>), OptKind>; }
pub struct Fail;
impl Fail { #[verifier::external_body] pub fn vx_to_string(&self) -> String { unimplemented!() } }
pub uninterp spec fn parses(o: Map<(Seq<char>, Seq<char>), OptKind>, a: Seq<Seq<char>>) -> bool;
pub uninterp spec fn free_of(o: Map<(Seq<char>, Seq<char>), OptKind>, a: Seq<Seq<char>>) -> Seq<Seq<char>>;
pub uninterp spec fn opt_of(o: Map<(Seq<char>, Seq<char>), OptKind>, a: Seq<Seq<char>>, n: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn flag_of(o: Map<(Seq<char>, Seq<char>), OptKind>, a: Seq<Seq<char>>, n: Seq<char>) -> bool;
#[verifier::external_body] pub struct VxMatched { p: u8 }
pub struct Matches { pub free: Vec<String>, pub vx_m: VxMatched }
impl VxMatched {
    pub uninterp spec fn o(&self) -> Map<(Seq<char>, Seq<char>), OptKind>;
    pub uninterp spec fn a(&self) -> Seq<Seq<char>>;
}
impl Options {
    #[verifier::external_body] pub fn new() -> (r: Options) ensures r@ == Map::<(Seq<char>, Seq<char>), OptKind>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn optopt(&mut self, s: &str, l: &str, d: &str, h: &str) ensures final(self)@ == old(self)@.insert((s@, l@), OptKind::Arg) { unimplemented!() }
    #[verifier::external_body] pub fn optflag(&mut self, s: &str, l: &str, d: &str) ensures final(self)@ == old(self)@.insert((s@, l@), OptKind::Flag) { unimplemented!() }
    #[verifier::external_body] pub fn parse(&self, a: &[String]) -> (r: Result<Matches, Fail>)
        ensures (r is Ok) == parses(self@, texts(a@)), r is Ok ==> texts(r->Ok_0.free@) == free_of(self@, texts(a@)) && r->Ok_0.vx_m.o() == self@ && r->Ok_0.vx_m.a() == texts(a@) { unimplemented!() }
    #[verifier::external_body] pub fn usage(&self, b: &str) -> String { unimplemented!() }
}
pub open spec fn same_text(r: Option<String>, o: Option<Seq<char>>) -> bool { (r is Some) == (o is Some) && (r is Some ==> r->Some_0@ == o->Some_0) }
impl Matches {
    #[verifier::external_body] pub fn opt_present(&self, n: &str) -> (r: bool) ensures r == flag_of(self.vx_m.o(), self.vx_m.a(), n@) { unimplemented!() }
    #[verifier::external_body] pub fn opt_str(&self, n: &str) -> (r: Option<String>) ensures same_text(r, opt_of(self.vx_m.o(), self.vx_m.a(), n@)) { unimplemented!() }
}
pub broadcast group group_fs { ax_canon, ax_canon_len, ax_stem, ax_ext_plain, ax_ext, ax_join }
