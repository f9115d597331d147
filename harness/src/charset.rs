//! Character sets.

use postscript::compact1::CharacterSet;

use crate::sx::{assume, bytes, choose, observe, split, u16, u32};
use crate::tables::{EXPERT, EXPERT_SUBSET, STRINGS};
use crate::util::*;
use crate::{check, harnesses, reach};

fn pair(b: &[u8], at: usize) -> u16 {
    (b[at] as u16) << 8 | b[at + 1] as u16
}

fn format0<const N: usize>(limit: usize) {
    let b = bytes::<N>();
    assume(b[0] == 0);
    let n = 1 + choose(N);
    let glyph_count = choose(limit + 1);
    let size = if glyph_count == 0 { usize::MAX } else { 1 + 2 * (glyph_count - 1) };
    match read_given::<CharacterSet>(&b[..n], glyph_count) {
        Some((CharacterSet::Format0(set), used)) => {
            reach!("accepted");
            check!(size <= n, "C13 truncated character sets are rejected");
            if size > n {
                return;
            }
            check!(used == size, "C13 a character set consumes exactly its encoding");
            check!(set.format == 0, "C13 a character set keeps its format");
            check!(set.glyphs.len() == glyph_count - 1, "C13 format 0 has a string per glyph except for the first one");
            for i in 0..set.glyphs.len().min(glyph_count - 1) {
                observe(set.glyphs[i] as u64);
                check!(set.glyphs[i] == pair(&b, 1 + 2 * i), "C13 format 0 lists the strings of glyphs in order");
            }
        }
        Some(_) => check!(false, "C13 the format of a character set is its first byte"),
        _ => {
            reach!("rejected");
            check!(size > n, "C13 well-formed character sets are accepted");
        }
    }
}

/// Formats 1 and 2 for any glyph count against all contents.
fn ranges<const N: usize>(wide: bool) {
    let b = bytes::<N>();
    assume(b[0] == if wide { 2 } else { 1 });
    let n = 1 + choose(N);
    let glyph_count = u32() as usize;
    assume(glyph_count <= 200_000);
    let width = if wide { 4 } else { 3 };
    // follow the ranges while they fit
    let mut covered = 1;
    let mut at = 1;
    let mut count = 0;
    let mut truncated = false;
    while covered < glyph_count {
        if at + width > n {
            truncated = true;
            break;
        }
        let left = if wide { pair(&b, at + 2) as usize } else { b[at + 2] as usize };
        covered += left + 1;
        at += width;
        count += 1;
    }
    let fine = !truncated & (covered == glyph_count);
    let result = read_given::<CharacterSet>(&b[..n], glyph_count);
    let (found, used) = match result {
        Some((CharacterSet::Format1(set), used)) => {
            check!(!wide & (set.format == 1), "C13 the format of a character set is its first byte");
            let ranges: Vec<_> = set.ranges.iter().map(|range| (range.first_string_id, range.left_count as usize)).collect();
            (ranges, used)
        }
        Some((CharacterSet::Format2(set), used)) => {
            check!(wide & (set.format == 2), "C13 the format of a character set is its first byte");
            let ranges: Vec<_> = set.ranges.iter().map(|range| (range.first_string_id, range.left_count as usize)).collect();
            (ranges, used)
        }
        Some(_) => {
            check!(false, "C13 the format of a character set is its first byte");
            return;
        }
        _ => {
            if truncated {
                reach!("truncated");
            } else {
                reach!("mismatch");
            }
            check!(!fine, "C13 well-formed character sets are accepted");
            return;
        }
    };
    reach!("accepted");
    check!(fine, "C13 ranges that do not cover exactly the glyphs are rejected");
    check!(used == at, "C13 a character set consumes exactly its encoding");
    check!(found.len() == count, "C13 a character set has as many ranges as cover the glyphs");
    for i in 0..count.min(found.len()) {
        let at = 1 + i * width;
        let left = if wide { pair(&b, at + 2) as usize } else { b[at + 2] as usize };
        observe(found[i].0 as u64);
        observe(found[i].1 as u64);
        check!(
            (found[i].0 == pair(&b, at)) & (found[i].1 == left),
            "C13 a range has the first string and the number of those left of its bytes"
        );
    }
}

fn predefined(set: &CharacterSet, strings: impl Fn(usize) -> usize, count: usize) {
    let glyph_id = u16();
    assume(glyph_id > 0);
    match set.get(glyph_id) {
        Some(name) => {
            let k = split(glyph_id as u64) as usize;
            reach!("named");
            observe_bytes(name.as_bytes());
            check!(k <= count, "C14 a glyph past a predefined character set has no name");
            if k <= count {
                check!(
                    same(name.as_bytes(), STRINGS[strings(k)].as_bytes()),
                    "C14 a glyph of a predefined character set has the name the format lists at its position"
                );
            }
        }
        _ => {
            reach!("unnamed");
            check!(glyph_id as usize > count, "C14 every glyph of a predefined character set has a name");
        }
    }
}

harnesses! {
    fn h_charset_0("C13", Quick, ["accepted", "rejected"],
        "format 0, up to 4 glyphs, all strings of 1 to 8 bytes")
    {
        format0::<8>(4);
    }

    fn h_charset_0_more("C13", Both, ["accepted", "rejected"],
        "format 0, up to 20 glyphs, all strings of 1 to 40 bytes")
    {
        format0::<40>(20);
    }

    fn h_charset_1("C13", Quick, ["accepted", "truncated", "mismatch"],
        "format 1, any glyph count, all strings of 1 to 8 bytes")
    {
        ranges::<8>(false);
    }

    fn h_charset_2("C13", Quick, ["accepted", "truncated", "mismatch"],
        "format 2, any glyph count up to 200000, all strings of 1 to 10 bytes")
    {
        ranges::<10>(true);
    }

    fn h_charset_1_more("C13", Both, ["accepted", "truncated", "mismatch"],
        "format 1, any glyph count, all strings of 1 to 20 bytes")
    {
        ranges::<20>(false);
    }

    fn h_charset_2_more("C13", Both, ["accepted", "truncated", "mismatch"],
        "format 2, any glyph count up to 200000, all strings of 1 to 22 bytes")
    {
        ranges::<22>(true);
    }

    fn h_charset_format("C13", Both, ["rejected"], "all formats above 2, up to 3 glyphs, 6 symbolic bytes") {
        let b = bytes::<6>();
        assume(b[0] > 2);
        reach!("rejected");
        check!(read_given::<CharacterSet>(&b, choose(4)).is_none(), "C13 unknown formats are rejected");
        check!(read_given::<CharacterSet>(&[], 1).is_none(), "C13 truncated character sets are rejected");
    }

    fn h_charset_iso_adobe("C14", Both, ["named", "unnamed"], "all glyphs from 1 to 65535") {
        predefined(&CharacterSet::ISOAdobe, |k| k, 228);
    }

    fn h_charset_expert("C14", Both, ["named", "unnamed"], "all glyphs from 1 to 65535") {
        predefined(&CharacterSet::Expert, |k| EXPERT[k - 1] as usize, EXPERT.len());
    }

    fn h_charset_expert_subset("C14", Both, ["named", "unnamed"], "all glyphs from 1 to 65535") {
        predefined(&CharacterSet::ExpertSubset, |k| EXPERT_SUBSET[k - 1] as usize, EXPERT_SUBSET.len());
    }
}
