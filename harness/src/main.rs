mod sx;

// who writes and who reads in the round trips: the tree under test, or the snapshot of its format
#[cfg(not(feature = "rd_ref"))]
use laz as rd;
#[cfg(feature = "rd_ref")]
use laz_ref as rd;
#[cfg(not(feature = "wr_ref"))]
use laz as wr;
#[cfg(feature = "wr_ref")]
use laz_ref as wr;

macro_rules! modules {
    ($($m:ident)*) => {
        $(mod $m;)*
        const TABLES: &[&[(&str, extern "C" fn())]] = &[$($m::TABLE),*, PAR];
    };
}
#[cfg(feature = "par")]
mod par;
#[cfg(feature = "par")]
const PAR: &[(&str, extern "C" fn())] = par::TABLE;
#[cfg(not(feature = "par"))]
const PAR: &[(&str, extern "C" fn())] = &[];
modules!(ac bare chunk codec corrupt ct int io iop lasf pts sel stat vlr);

#[cfg(feature = "native")]
fn main() {
    let args: Vec<String> = std::env::args().collect();
    sx::load(&args[2]);
    for table in TABLES {
        for (name, f) in *table {
            if *name == args[1] {
                f();
                sx::finish();
            }
        }
    }
    println!("no such entry {}", args[1]);
    std::process::exit(3);
}

#[cfg(not(feature = "native"))]
fn main() {
    // keeps the entry points
    let n: usize = TABLES.iter().map(|t| t.len()).sum();
    std::process::exit(n as i32);
}
