// This program must not compile: the enumeration of kinds may grow.
use file_format::Kind;
fn name(x: Kind) -> u8 {
    match x {
/*VARIANTS*/
    }
}
fn main() {
    let _ = name(Kind::Other);
}
