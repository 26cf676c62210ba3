#module cli
=== prelude
// the world the command line program acts on, and the contracts assumed of
// std (text, files, console), csv, serde_json, prettytable
use crate::similarity_result::SimilarityResult;
use crate::path_pair::PathPair;
/// what the console shows
pub enum Shown { Line(Seq<char>), Part(Seq<char>), Table { titles: Seq<Seq<char>>, rows: Seq<Seq<Seq<char>>> } }
pub open spec fn shown_table(titles: Seq<Seq<char>>, rows: Seq<Seq<Seq<char>>>) -> Shown { Shown::Table { titles, rows } }
#[verifier::external_body]
pub struct VxWorld { _p: () }
impl VxWorld {
    pub uninterp spec fn out(&self) -> Seq<Shown>;
    pub uninterp spec fn files(&self) -> Map<Seq<char>, Seq<u8>>;
    #[verifier::external_body]
    pub fn vx_println(&mut self, t: VxText) ensures final(self).out() == old(self).out().push(Shown::Line(t@)), final(self).files() == old(self).files() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_print(&mut self, t: VxText) ensures final(self).out() == old(self).out().push(Shown::Part(t@)), final(self).files() == old(self).files() { unimplemented!() }
}
pub open spec fn content(f: Map<Seq<char>, Seq<u8>>, p: Seq<char>) -> Seq<u8> { if f.dom().contains(p) { f[p] } else { Seq::empty() } }
// --- text ------------------------------------------------------------------------
pub uninterp spec fn f64_text(x: f64) -> Seq<char>;
pub uninterp spec fn int_text(x: int) -> Seq<char>;
pub uninterp spec fn fmt_text(x: Seq<char>, o: Seq<char>) -> Seq<char>;
/// the shortest decimal that reads back as x, as the csv writer prints it
pub uninterp spec fn csv_f64(x: f64) -> Seq<char>;
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn build_constant(s: Seq<char>) -> Seq<char>;
pub trait VxShow { spec fn shown(&self) -> Seq<char>; spec fn cell(&self) -> Seq<char>; }
impl VxShow for f64 { open spec fn shown(&self) -> Seq<char> { f64_text(*self) } open spec fn cell(&self) -> Seq<char> { csv_f64(*self) } }
impl VxShow for usize { open spec fn shown(&self) -> Seq<char> { int_text(*self as int) } open spec fn cell(&self) -> Seq<char> { int_text(*self as int) } }
impl VxShow for u32 { open spec fn shown(&self) -> Seq<char> { int_text(*self as int) } open spec fn cell(&self) -> Seq<char> { int_text(*self as int) } }
impl VxShow for str { open spec fn shown(&self) -> Seq<char> { self@ } open spec fn cell(&self) -> Seq<char> { self@ } }
impl VxShow for String { open spec fn shown(&self) -> Seq<char> { self@ } open spec fn cell(&self) -> Seq<char> { self@ } }
impl<T: VxShow + ?Sized> VxShow for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } open spec fn cell(&self) -> Seq<char> { (**self).cell() } }
#[verifier::external_body]
pub struct VxText { s: String }
impl View for VxText { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxText {
    #[verifier::external_body]
    pub fn new() -> (r: VxText) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_lit(self, s: &str) -> (r: VxText) ensures r@ == self@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_show<T: VxShow + ?Sized>(self, t: &T) -> (r: VxText) ensures r@ == self@ + t.shown() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_showf<T: VxShow + ?Sized>(self, t: &T, o: &str) -> (r: VxText) ensures r@ == self@ + fmt_text(t.shown(), o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_string(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_to_string<T: VxShow + ?Sized>(t: &T) -> (r: String) ensures r@ == t.shown() { unimplemented!() }
#[verifier::external_body]
pub fn vx_string<T: VxShow>(t: T) -> (r: String) ensures r@ == t.shown() { unimplemented!() }
#[verifier::external_body]
pub fn vx_empty() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vx_concat<T: VxShow>(s: String, t: T) -> (r: String) ensures r@ == s@ + t.shown() { unimplemented!() }
#[verifier::external_body]
pub fn vx_append<T: VxShow>(s: &mut String, t: T) ensures final(s)@ == old(s)@ + t.shown() { unimplemented!() }
#[verifier::external_body]
pub fn vx_append_char(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body]
pub fn vx_bytes(s: &String) -> (r: &[u8]) ensures r@ == utf8(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_env(s: &'static str) -> (r: &'static str) ensures r@ == build_constant(s@) { unimplemented!() }
/// `expect`: the program ends unless the value is there
pub trait VxMust<T> { spec fn good(&self, t: T) -> bool; }
impl<T, E> VxMust<T> for Result<T, E> { open spec fn good(&self, t: T) -> bool { *self is Ok && self->Ok_0 == t } }
impl<T> VxMust<T> for Option<T> { open spec fn good(&self, t: T) -> bool { *self == Some(t) } }
#[verifier::external_body]
pub fn vx_must<T, M: VxMust<T>>(m: M) -> (r: T) ensures m.good(r) { unimplemented!() }
pub uninterp spec fn logger_fails() -> bool;
#[verifier::external_body]
pub fn vx_logger() -> (r: Result<(), VxError>) ensures r is Err ==> logger_fails() { unimplemented!() }
/// the value typed after an option, whether a flag was typed, the subcommand typed
pub uninterp spec fn typed_text(long: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn typed_flag(long: Seq<char>) -> bool;
pub uninterp spec fn typed_command() -> Seq<char>;
pub uninterp spec fn number(t: Seq<char>) -> int;
// --- serde_json --------------------------------------------------------------------
pub uninterp spec fn json_of(r: SimilarityResult) -> Seq<char>;
pub uninterp spec fn json_line_of(r: SimilarityResult) -> Seq<char>;
#[verifier::external_body]
pub fn to_string_pretty(r: &SimilarityResult) -> (s: Result<String, VxError>) ensures s is Ok ==> s->Ok_0@ == json_of(*r) { unimplemented!() }
#[verifier::external_body]
pub fn to_string(r: &SimilarityResult) -> (s: Result<String, VxError>) ensures s is Ok ==> s->Ok_0@ == json_line_of(*r) { unimplemented!() }
// --- files -------------------------------------------------------------------------
pub trait VxPath { spec fn path(&self) -> Seq<char>; }
impl VxPath for str { open spec fn path(&self) -> Seq<char> { self@ } }
impl VxPath for String { open spec fn path(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub struct PathBuf { s: String }
impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxPath for PathBuf { open spec fn path(&self) -> Seq<char> { self@ } }
impl<T: VxPath + ?Sized> VxPath for &T { open spec fn path(&self) -> Seq<char> { (**self).path() } }
impl PathBuf {
    #[verifier::external_body]
    pub fn from<T: VxPath>(t: T) -> (r: PathBuf) ensures r@ == t.path() { unimplemented!() }
}
pub struct OpenOptions { pub create: bool, pub append: bool, pub write: bool, pub truncate: bool, pub create_new: bool, pub read: bool }
impl OpenOptions {
    pub fn new() -> (r: Self) ensures r == (OpenOptions { create: false, append: false, write: false, truncate: false, create_new: false, read: false }) { OpenOptions { create: false, append: false, write: false, truncate: false, create_new: false, read: false } }
    pub fn create(self, b: bool) -> (r: Self) ensures r == (OpenOptions { create: b, ..self }) { OpenOptions { create: b, append: self.append, write: self.write, truncate: self.truncate, create_new: self.create_new, read: self.read } }
    pub fn append(self, b: bool) -> (r: Self) ensures r == (OpenOptions { append: b, ..self }) { OpenOptions { create: self.create, append: b, write: self.write, truncate: self.truncate, create_new: self.create_new, read: self.read } }
    pub fn write(self, b: bool) -> (r: Self) ensures r == (OpenOptions { write: b, ..self }) { OpenOptions { create: self.create, append: self.append, write: b, truncate: self.truncate, create_new: self.create_new, read: self.read } }
    pub fn truncate(self, b: bool) -> (r: Self) ensures r == (OpenOptions { truncate: b, ..self }) { OpenOptions { create: self.create, append: self.append, write: self.write, truncate: b, create_new: self.create_new, read: self.read } }
    pub fn create_new(self, b: bool) -> (r: Self) ensures r == (OpenOptions { create_new: b, ..self }) { OpenOptions { create: self.create, append: self.append, write: self.write, truncate: self.truncate, create_new: b, read: self.read } }
    pub fn read(self, b: bool) -> (r: Self) ensures r == (OpenOptions { read: b, ..self }) { OpenOptions { create: self.create, append: self.append, write: self.write, truncate: self.truncate, create_new: self.create_new, read: b } }
    #[verifier::external_body]
    pub fn open<P: VxPath>(self, p: P, w: &mut VxWorld) -> (r: Result<File, VxError>)
        ensures final(w).out() == old(w).out(),
            r is Ok ==> r->Ok_0.at() == p.path() && r->Ok_0.appends() == self.append && r->Ok_0.pos() == 0
                && final(w).files() == old(w).files().insert(p.path(), if self.truncate { Seq::empty() } else { content(old(w).files(), p.path()) })
                && (old(w).files().dom().contains(p.path()) ==> !self.create_new) && (!old(w).files().dom().contains(p.path()) ==> self.create || self.create_new)
    { unimplemented!() }
}
#[verifier::external_body]
pub struct File { _p: () }
pub uninterp spec fn overwritten(old: Seq<u8>, at: int, new: Seq<u8>) -> Seq<u8>;
impl File {
    pub uninterp spec fn at(&self) -> Seq<char>;
    pub uninterp spec fn appends(&self) -> bool;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8], w: &mut VxWorld) -> (r: Result<(), VxError>)
        ensures final(w).out() == old(w).out(), final(self).at() == old(self).at(), final(self).appends() == old(self).appends(), final(self).pos() == old(self).pos() + b@.len(),
            r is Ok ==> final(w).files() == old(w).files().insert(old(self).at(), if old(self).appends() { content(old(w).files(), old(self).at()) + b@ } else { overwritten(content(old(w).files(), old(self).at()), old(self).pos(), b@) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self, w: &mut VxWorld) -> (r: Result<(), VxError>) ensures *final(w) == *old(w), *final(self) == *old(self) { unimplemented!() }
}
// --- csv ---------------------------------------------------------------------------
#[verifier::external_body]
pub struct VxRow { _p: () }
impl View for VxRow { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
impl VxRow {
    #[verifier::external_body]
    pub fn new() -> (r: VxRow) ensures r@ == Seq::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_cell<T: VxShow + ?Sized>(self, t: &T) -> (r: VxRow) ensures r@ == self@.push(t.cell()) { unimplemented!() }
}
/// one quoted record and its line end
pub uninterp spec fn csv_row(delimiter: u8, cells: Seq<Seq<char>>) -> Seq<u8>;
/// headers are only written for structs, never for rows of cells
pub struct WriterBuilder { pub headers: bool, pub sep: u8 }
impl WriterBuilder {
    pub fn new() -> (r: Self) ensures r.sep == 44 { WriterBuilder { headers: true, sep: 44 } }
    pub fn has_headers(self, b: bool) -> (r: Self) ensures r.sep == self.sep { WriterBuilder { headers: b, sep: self.sep } }
    pub fn delimiter(self, d: u8) -> (r: Self) ensures r.sep == d { WriterBuilder { headers: self.headers, sep: d } }
    #[verifier::external_body]
    pub fn from_path<P: VxPath>(self, p: P, w: &mut VxWorld) -> (r: Result<CsvWriter, VxError>)
        ensures final(w).out() == old(w).out(), r is Ok ==> r->Ok_0.at() == p.path() && r->Ok_0.sep() == self.sep && final(w).files() == old(w).files().insert(p.path(), Seq::empty())
    { unimplemented!() }
}
#[verifier::external_body]
pub struct CsvWriter { _p: () }
impl CsvWriter {
    pub uninterp spec fn at(&self) -> Seq<char>;
    pub uninterp spec fn sep(&self) -> u8;
    /// buffered records reach the file at the latest when the writer is dropped
    #[verifier::external_body]
    pub fn vx_row(&mut self, c: VxRow, w: &mut VxWorld) -> (r: Result<(), VxError>)
        ensures final(w).out() == old(w).out(), final(self).at() == old(self).at(), final(self).sep() == old(self).sep(),
            r is Ok ==> final(w).files() == old(w).files().insert(old(self).at(), content(old(w).files(), old(self).at()) + csv_row(old(self).sep(), c@))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self, w: &mut VxWorld) -> (r: Result<(), VxError>) ensures *final(w) == *old(w), *final(self) == *old(self) { unimplemented!() }
}
/// how a csv file is read
pub struct ReaderBuilder { pub headers: bool, pub sep: u8, pub uneven: bool, pub remark: Option<u8> }
/// the records of a file, some of them damaged
pub uninterp spec fn csv_file(path: Seq<char>, how: ReaderBuilder) -> Result<Seq<Result<Seq<Seq<char>>, VxError>>, VxError>;
impl ReaderBuilder {
    pub fn new() -> (r: Self) ensures r == (ReaderBuilder { headers: true, sep: 44, uneven: false, remark: None }) { ReaderBuilder { headers: true, sep: 44, uneven: false, remark: None } }
    pub fn has_headers(self, b: bool) -> (r: Self) ensures r == (ReaderBuilder { headers: b, ..self }) { ReaderBuilder { headers: b, sep: self.sep, uneven: self.uneven, remark: self.remark } }
    pub fn delimiter(self, d: u8) -> (r: Self) ensures r == (ReaderBuilder { sep: d, ..self }) { ReaderBuilder { headers: self.headers, sep: d, uneven: self.uneven, remark: self.remark } }
    pub fn flexible(self, b: bool) -> (r: Self) ensures r == (ReaderBuilder { uneven: b, ..self }) { ReaderBuilder { headers: self.headers, sep: self.sep, uneven: b, remark: self.remark } }
    pub fn comment(self, c: Option<u8>) -> (r: Self) ensures r == (ReaderBuilder { remark: c, ..self }) { ReaderBuilder { headers: self.headers, sep: self.sep, uneven: self.uneven, remark: c } }
    #[verifier::external_body]
    pub fn from_path<P: VxPath>(self, p: P) -> (r: Result<CsvReader, VxError>)
        ensures match csv_file(p.path(), self) { Ok(v) => r is Ok && r->Ok_0.rest() == v, Err(e) => r is Err && r->Err_0 == e }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct CsvReader { _p: () }
impl CsvReader {
    pub uninterp spec fn rest(&self) -> Seq<Result<Seq<Seq<char>>, VxError>>;
    #[verifier::external_body]
    pub fn vx_next_record(&mut self) -> (r: Option<Result<StringRecord, VxError>>)
        ensures match r {
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            Some(x) => old(self).rest().len() > 0 && final(self).rest() == old(self).rest().skip(1)
                && match old(self).rest()[0] { Ok(f) => x is Ok && x->Ok_0@ == f, Err(e) => x is Err && x->Err_0 == e },
        }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct StringRecord { _p: () }
impl View for StringRecord { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
/// the i-th field holds the value called name
pub open spec fn named(h: Option<&StringRecord>, i: int, name: Seq<char>, at: int) -> bool { match h { Some(h) => 0 <= i < h@.len() && h@[i] == name, None => i == at } }
pub open spec fn once(h: Option<&StringRecord>, n: nat, name: Seq<char>, at: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] named(h, i, name, at) && forall|j: int| #[trigger] named(h, j, name, at) ==> j == i }
impl StringRecord {
    #[verifier::external_body]
    pub fn from<T: VxShow>(v: Vec<T>) -> (r: StringRecord) ensures r@ == v@.map_values(|s: T| s.shown()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&str>) ensures i < self@.len() ==> r is Some && r->Some_0@ == self@[i as int], i >= self@.len() ==> r is None { unimplemented!() }
    /// serde's derived reading of a record: fields by name, or by position without names
    #[verifier::external_body]
    pub fn deserialize(&self, h: Option<&StringRecord>) -> (r: Result<PathPair, VxError>)
        ensures r is Ok ==> forall|i: int| 0 <= i < self@.len() ==> (#[trigger] named(h, i, "reference"@, 0) ==> r->Ok_0.reference@ == self@[i]) && (#[trigger] named(h, i, "degraded"@, 1) ==> r->Ok_0.degraded@ == self@[i]),
            r is Ok ==> (exists|i: int| 0 <= i < self@.len() && #[trigger] named(h, i, "reference"@, 0)) && (exists|i: int| 0 <= i < self@.len() && #[trigger] named(h, i, "degraded"@, 1)),
            once(h, self@.len(), "reference"@, 0) && once(h, self@.len(), "degraded"@, 1) ==> r is Ok,
    { unimplemented!() }
}
// --- tables ------------------------------------------------------------------------
#[verifier::external_body]
pub struct TableFormat { _p: () }
pub enum LinePosition { Top, Title, Intern, Bottom }
#[verifier::external_body]
pub struct LineSeparator { _p: () }
impl LineSeparator {
    #[verifier::external_body]
    pub fn new(line: char, junction: char, left: char, right: char) -> LineSeparator { unimplemented!() }
}
/// the look of a table is not part of any contract
#[verifier::external_body]
pub struct FormatBuilder { _p: () }
impl FormatBuilder {
    #[verifier::external_body]
    pub fn new() -> FormatBuilder { unimplemented!() }
    #[verifier::external_body]
    pub fn column_separator(self, c: char) -> FormatBuilder { unimplemented!() }
    #[verifier::external_body]
    pub fn separator(self, p: LinePosition, l: LineSeparator) -> FormatBuilder { unimplemented!() }
    #[verifier::external_body]
    pub fn borders(self, c: char) -> FormatBuilder { unimplemented!() }
    #[verifier::external_body]
    pub fn padding(self, l: usize, r: usize) -> FormatBuilder { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self) -> TableFormat { unimplemented!() }
}
#[verifier::external_body]
pub struct Cell { _p: () }
impl View for Cell { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Cell {
    #[verifier::external_body]
    pub fn new<T: VxShow + ?Sized>(t: &T) -> (r: Cell) ensures r@ == t.shown() { unimplemented!() }
}
#[verifier::external_body]
pub struct Row { _p: () }
impl View for Row { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
impl Row {
    #[verifier::external_body]
    pub fn new(v: Vec<Cell>) -> (r: Row) ensures r@ == v@.map_values(|c: Cell| c@) { unimplemented!() }
}
#[verifier::external_body]
pub struct Table { _p: () }
impl Table {
    pub uninterp spec fn titles(&self) -> Seq<Seq<char>>;
    pub uninterp spec fn rows(&self) -> Seq<Seq<Seq<char>>>;
    #[verifier::external_body]
    pub fn new() -> (r: Table) ensures r.titles() == Seq::<Seq<char>>::empty(), r.rows() == Seq::<Seq<Seq<char>>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_format(&mut self, f: TableFormat) ensures final(self).titles() == old(self).titles(), final(self).rows() == old(self).rows() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_titles(&mut self, r: Row) ensures final(self).titles() == r@, final(self).rows() == old(self).rows() { unimplemented!() }
    #[verifier::external_body]
    pub fn add_row(&mut self, r: Row) ensures final(self).titles() == old(self).titles(), final(self).rows() == old(self).rows().push(r@) { unimplemented!() }
    #[verifier::external_body]
    pub fn printstd(&self, w: &mut VxWorld) ensures final(w).out() == old(w).out().push(shown_table(self.titles(), self.rows())), final(w).files() == old(w).files() { unimplemented!() }
}
