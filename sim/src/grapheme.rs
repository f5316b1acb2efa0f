//! User-perceived characters, by the Unicode library (not the code under test).
use unicode_segmentation::UnicodeSegmentation;
/// Byte offsets of the characters of a line, and its length.
pub fn offsets(l: &str) -> Vec<usize> {
    let mut v: Vec<usize> = l.grapheme_indices(true).map(|x| x.0).collect();
    v.push(l.len());
    v
}
