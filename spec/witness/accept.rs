// This program must compile: it uses the public interface in every way it is promised.
#![allow(dead_code, clippy::all)]
#![deny(unused_must_use)]
use file_format::{FileFormat, Kind};
use std::borrow::Cow;
use std::fmt::{Debug, Display};
use std::fs::File;
use std::io::{BufReader, Cursor, Empty, Read, Result, Seek, SeekFrom};
use std::panic::{RefUnwindSafe, UnwindSafe};
use std::path::{Path, PathBuf};
use std::rc::Rc;

// values
fn plain<T: Copy + Clone + Debug + Eq + PartialEq + Send + Sync + Unpin + UnwindSafe + RefUnwindSafe + Sized + 'static>() {}
fn shown<T: Display + Default>() {}
fn promises() {
    plain::<FileFormat>();
    plain::<Kind>();
    shown::<FileFormat>();
}

// metadata in constants
const FORMAT: FileFormat = FileFormat::PlainText;
const KIND: Kind = FORMAT.kind();
const NAME: &str = FORMAT.name();
const SHORT: Option<&str> = FORMAT.short_name();
const MEDIA: &str = FORMAT.media_type();
const EXTENSION: &str = FORMAT.extension();
static TABLE: [(FileFormat, Kind); 1] = [(FORMAT, KIND)];

// values in patterns
fn is_it(x: FileFormat) -> bool {
    matches!(x, FORMAT)
}
fn is_kind(x: Kind) -> bool {
    matches!(x, KIND)
}

// metadata behind references
fn metadata<'a>(x: &'a FileFormat) -> (&'a str, Option<&'a str>, &'a str, &'a str, Kind) {
    (x.name(), x.short_name(), x.media_type(), x.extension(), x.kind())
}

// contents in memory
fn contents(slice: &[u8], text: &str) -> [FileFormat; 12] {
    [
        FileFormat::from_bytes(slice),
        FileFormat::from_bytes(text),
        FileFormat::from_bytes(text.to_string()),
        FileFormat::from_bytes(slice.to_vec()),
        FileFormat::from_bytes(&slice.to_vec()),
        FileFormat::from_bytes([0u8; 4]),
        FileFormat::from_bytes(b"GIF89a"),
        FileFormat::from_bytes(slice.to_vec().into_boxed_slice()),
        FileFormat::from_bytes(Cow::Borrowed(slice)),
        FileFormat::from_bytes(Rc::<[u8]>::from(slice)),
        FileFormat::from(slice),
        slice.into(),
    ]
}

// files
fn files(path: &Path, buf: PathBuf) -> Result<[FileFormat; 6]> {
    Ok([
        FileFormat::from_file("a")?,
        FileFormat::from_file("a".to_string())?,
        FileFormat::from_file(path)?,
        FileFormat::from_file(&buf)?,
        FileFormat::from_file(path.as_os_str())?,
        FileFormat::from_file(buf)?,
    ])
}

// readers that are neither Send, nor 'static, nor anything but readers
struct Own<'a>(&'a mut Cursor<Vec<u8>>, Rc<()>);
impl Read for Own<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.0.read(buf)
    }
}
impl Seek for Own<'_> {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
        self.0.seek(pos)
    }
}
trait Both: Read + Seek {}
impl<T: Read + Seek> Both for T {}
fn any<R: Read + Seek>(reader: R) -> Result<FileFormat> {
    FileFormat::from_reader(reader)
}
fn readers(file: File, slice: &[u8], own: Own<'_>, dynamic: &mut dyn Both, boxed: Box<dyn Both + '_>) -> Result<[FileFormat; 8]> {
    let mut borrowed = &file;
    Ok([
        FileFormat::from_reader(Cursor::new(slice))?,
        FileFormat::from_reader(Cursor::new(slice.to_vec()))?,
        FileFormat::from_reader(&mut borrowed)?,
        FileFormat::from_reader(BufReader::new(&file))?,
        FileFormat::from_reader(own)?,
        FileFormat::from_reader(dynamic)?,
        FileFormat::from_reader(boxed)?,
        FileFormat::from_reader(file)?,
    ])
}

// the interface as function values
fn functions(slices: &[&[u8]], paths: &[PathBuf]) {
    let _: Vec<FileFormat> = slices.iter().map(FileFormat::from_bytes).collect();
    let _: Result<Vec<FileFormat>> = paths.iter().map(FileFormat::from_file).collect();
    let _: fn(Cursor<Vec<u8>>) -> Result<FileFormat> = FileFormat::from_reader::<Cursor<Vec<u8>>>;
    let _: fn(&FileFormat) -> Kind = FileFormat::kind;
}

/*GENERATED*/
fn main() {}
