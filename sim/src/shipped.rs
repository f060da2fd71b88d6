//! The formats the repository ships, by the selector names of its command line.

use doodle::decoder::{Compiler, Program};
use doodle::{Format, FormatModule};

/// (selector, corpus files, weight)
pub const SELECTORS: &[(&str, &[&str], usize)] = &[
    ("gif", &["test.gif", "test-images/bw.gif", "test-images/dodgy.gif", "test-images/wireless.gif", "test-images/robot.gif"], 4),
    ("png", &["test.png", "test-images/swatch-white.png", "test-images/dodgy.png", "test-images/biotech.png", "test-images/trans3.png"], 3),
    ("jpeg", &["test.jpg"], 3),
    ("gzip", &["test1.gz", "test2.gz", "test3.gz"], 4),
    ("tar", &["test.tar"], 2),
    ("elf", &["test.elf"], 2),
    ("riff", &["test.webp", "test-images/webp-no-exif.webp", "test-images/webp-orientation-3.webp"], 2),
    ("waldo", &["test.waldo"], 2),
    ("rle", &["test0.rle", "test1.rle"], 3),
    ("numbers", &["test1.numbers"], 2),
    ("peano", &["test.peano"], 2),
    ("text", &["test.utf8", "mixed.utf8", "test.txt"], 2),
    ("tiff", &["test-images/scmyk.tif", "test-images/scmyka.tif", "test-images/scmyka16.tif"], 2),
    ("deflate", &[], 2),
    ("mpeg4", &[], 2),
];

/// Only exercised by the interpreters on its own; generated code covers it as part of `main`.
pub const FONT: (&str, &[&str], usize) = (
    "opentype",
    &["test-fonts/Zycon.ttf", "test-fonts/DroidSansArabic.ttf", "test-fonts/samanata.ttf", "test-fonts/SourceCodePro-Regular.otf"],
    2,
);

pub fn build(sel: &str) -> (FormatModule, Format) {
    use doodle_formats::format::*;
    let mut m = FormatModule::new();
    let r = match sel {
        "main" => main(&mut m),
        "gif" => gif::main(&mut m),
        "png" => {
            let deflate = deflate::main(&mut m);
            let zlib = zlib::main(&mut m, deflate);
            let (text, utf8nz) = text::main(&mut m);
            png::main(&mut m, zlib, text, utf8nz)
        }
        "jpeg" => {
            let tiff = tiff::main(&mut m);
            jpeg::main(&mut m, tiff)
        }
        "gzip" => {
            let deflate = deflate::main(&mut m);
            gzip::main(&mut m, deflate)
        }
        "tar" => tar::main(&mut m),
        "elf" => elf::main(&mut m),
        "riff" => riff::main(&mut m),
        "waldo" => waldo::main(&mut m),
        "rle" => run_length::main(&mut m),
        "numbers" => numbers::main(&mut m),
        "peano" => peano::main(&mut m),
        "text" => text::main(&mut m).0,
        "tiff" => tiff::main(&mut m),
        "deflate" => deflate::main(&mut m),
        "mpeg4" => mpeg4::main(&mut m),
        "opentype" => opentype_standalone(&mut m),
        _ => panic!("no such format {sel}"),
    };
    let f = r.call();
    // deflate reads bits, wherever it is used
    let f = if sel == "deflate" { Format::Bits(Box::new(f)) } else { f };
    (m, f)
}

pub fn program(sel: &str) -> Program {
    let (m, f) = build(sel);
    Compiler::compile_program(&m, &f).expect("compiles")
}
