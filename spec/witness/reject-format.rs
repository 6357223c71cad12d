// This program must not compile: the enumeration of formats may grow.
use file_format::FileFormat;
fn name(x: FileFormat) -> u8 {
    match x {
/*VARIANTS*/
    }
}
fn main() {
    let _ = name(FileFormat::Empty);
}
