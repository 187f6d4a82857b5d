//! Documents of symbolic structure.

use crate::rt;

/// A document made of pieces: the pieces, each followed by 0xff, then 0xfe and the document, in which
/// the bytes from 0x80 stand for the pieces.
pub fn assemble(input: &[u8]) -> Vec<u8> {
    let mut pieces: Vec<&[u8]> = Vec::new();
    let (mut start, mut i) = (0, 0);
    while i < input.len() && input[i] != 0xfe {
        if input[i] == 0xff {
            pieces.push(&input[start..i]);
            start = i + 1;
        }
        i += 1;
    }
    let mut doc = Vec::with_capacity(1024);
    for b in input.get(i + 1..).unwrap_or(&[]) {
        if *b < 0x80 {
            doc.push(*b);
        } else if let Some(p) = pieces.get(rt::split(*b) as usize - 0x80) {
            doc.extend_from_slice(p);
        }
    }
    #[cfg(feature = "native")]
    if std::env::var_os("SYMX_SHOW_PANIC").is_some() {
        eprintln!("--- document\n{}", String::from_utf8_lossy(&doc));
    }
    doc
}
