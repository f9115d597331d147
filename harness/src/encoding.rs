//! Encodings.

use postscript::compact1::font_set::character_id_keyed;
use postscript::compact1::index::CharacterStrings;
use postscript::compact1::{Encoding, Index};

use crate::sx::{assume, byte, bytes, choose, observe, split, u16};
use crate::tables::{EXPERT_ENCODING, STANDARD_ENCODING};
use crate::util::*;
use crate::{check, harnesses, reach};

fn plain<const N: usize>() {
    let b = bytes::<N>();
    let n = choose(N + 1);
    if n > 0 {
        assume(b[0] < 0x80);
    }
    let result = read::<Encoding>(&b[..n]);
    let size = if n < 2 {
        usize::MAX
    } else {
        2 + b[1] as usize * if b[0] == 0 { 1 } else { 2 }
    };
    match result {
        Some((Encoding::Format0(encoding), used)) => {
            reach!("format 0");
            check!((b[0] == 0) & (encoding.format == 0), "C15 the format of an encoding is its first byte");
            check!(size <= n, "C15 truncated encodings are rejected");
            if size > n {
                return;
            }
            let size = split(size as u64) as usize;
            check!(used == size, "C15 an encoding consumes exactly its encoding");
            check!(encoding.code_count == b[1], "C15 an encoding has the count of its bytes");
            check!(same(&encoding.codes, &b[2..size]), "C15 format 0 lists the codes in order");
            observe_bytes(&encoding.codes);
        }
        Some((Encoding::Format1(encoding), used)) => {
            reach!("format 1");
            check!((b[0] == 1) & (encoding.format == 1), "C15 the format of an encoding is its first byte");
            check!(size <= n, "C15 truncated encodings are rejected");
            if size > n {
                return;
            }
            let size = split(size as u64) as usize;
            check!(used == size, "C15 an encoding consumes exactly its encoding");
            check!(encoding.range_count == b[1], "C15 an encoding has the count of its bytes");
            let count = (size - 2) / 2;
            check!(encoding.ranges.len() == count, "C15 an encoding has as many ranges as its count");
            for i in 0..count.min(encoding.ranges.len()) {
                observe(encoding.ranges[i].first_code as u64);
                observe(encoding.ranges[i].left_count as u64);
                check!(
                    (encoding.ranges[i].first_code == b[2 + 2 * i]) & (encoding.ranges[i].left_count == b[3 + 2 * i]),
                    "C15 a range has the first code and the number of those left of its bytes"
                );
            }
        }
        Some(_) => check!(false, "C15 the format of an encoding is its first byte"),
        _ => {
            reach!("rejected");
            check!((n == 0) || (b[0] > 1) | (size > n), "C15 well-formed encodings are accepted");
        }
    }
}

fn builtin(encoding: &Encoding, table: &[u16; 256]) {
    let code = u16();
    match encoding.get(code) {
        Some(id) => {
            check!(code < 256, "C16 a code past a predefined encoding has no string");
            if code >= 256 {
                return;
            }
            reach!("encoded");
            observe(id as u64);
            let k = split(code as u64) as usize;
            check!(id == table[k], "C16 a code of a predefined encoding has the string the format assigns to it");
        }
        _ => {
            reach!("unencoded");
            check!(code >= 256, "C16 every code of a predefined encoding has a string");
        }
    }
}

fn strings(count: u16) -> CharacterStrings {
    CharacterStrings(Index { count, offset_size: 1, offsets: vec![], data: vec![] })
}

fn select<const N: usize>(limit: usize) {
    let b = bytes::<N>();
    let n = choose(N + 1);
    if n > 0 {
        assume((b[0] != 3) | ((n < 2) | (b[1] == 0)));
    }
    let glyph_count = choose(limit + 1);
    let strings = strings(glyph_count as u16);
    match read_given::<character_id_keyed::Encoding>(&b[..n], &strings) {
        Some((character_id_keyed::Encoding::Format0(encoding), used)) => {
            reach!("format 0");
            check!((n > 0) && (b[0] == 0) & (encoding.format == 0), "C17 the format of a selector is its first byte");
            check!(glyph_count + 1 <= n, "C17 truncated selectors are rejected");
            if glyph_count + 1 > n {
                return;
            }
            check!(used == glyph_count + 1, "C17 a selector consumes exactly its encoding");
            check!(same(&encoding.dictionary_ids, &b[1..1 + glyph_count]), "C17 format 0 has a dictionary per glyph in order");
            observe_bytes(&encoding.dictionary_ids);
        }
        Some((character_id_keyed::Encoding::Format3(encoding), used)) => {
            reach!("format 3");
            check!((n > 0) && (b[0] == 3) & (encoding.format == 3), "C17 the format of a selector is its first byte");
            let size = 5 + 3 * b[2] as usize;
            check!(size <= n, "C17 truncated selectors are rejected");
            if size > n {
                return;
            }
            let size = split(size as u64) as usize;
            let count = (size - 5) / 3;
            check!(used == size, "C17 a selector consumes exactly its encoding");
            check!(encoding.range_count as usize == count, "C17 format 3 has the count of its bytes");
            check!(encoding.ranges.len() == count, "C17 format 3 has as many ranges as its count");
            for i in 0..count.min(encoding.ranges.len()) {
                let at = 3 + 3 * i;
                observe(encoding.ranges[i].first_glyph_id as u64);
                observe(encoding.ranges[i].dictionary_id as u64);
                check!(
                    (encoding.ranges[i].first_glyph_id == (b[at] as u16) << 8 | b[at + 1] as u16)
                        & (encoding.ranges[i].dictionary_id == b[at + 2]),
                    "C17 a range has the first glyph and the dictionary of its bytes"
                );
            }
            check!(
                encoding.glyph_count == (b[size - 2] as u16) << 8 | b[size - 1] as u16,
                "C17 format 3 ends with the sentinel glyph"
            );
        }
        None => {
            reach!("rejected");
            let fine = (n > 0)
                && ((b[0] == 0) & (glyph_count + 1 <= n) | (b[0] == 3) & (n >= 3) & (5 + 3 * b[2] as usize <= n));
            check!(!fine, "C17 well-formed selectors are accepted");
        }
    }
}

harnesses! {
    fn h_encoding("C15", Quick, ["format 0", "format 1", "rejected"],
        "all strings of 0 to 8 bytes without the supplement flag")
    {
        plain::<8>();
    }

    fn h_encoding_more("C15", Both, ["format 0", "format 1", "rejected"],
        "all strings of 0 to 24 bytes without the supplement flag")
    {
        plain::<24>();
    }

    fn h_encoding_long("C15", Both, ["format 0", "format 1"],
        "255 codes or ranges with the last one symbolic")
    {
        let b = [byte(), byte()];
        if choose(2) == 0 {
            let mut data = vec![0, 255];
            data.extend_from_slice(&[9; 254]);
            data.push(b[0]);
            match read::<Encoding>(&data) {
                Some((Encoding::Format0(encoding), used)) => {
                    reach!("format 0");
                    check!(used == 257, "C15 an encoding consumes exactly its encoding");
                    check!(same(&encoding.codes, &data[2..]), "C15 format 0 lists the codes in order");
                }
                _ => check!(false, "C15 well-formed encodings are accepted"),
            }
        } else {
            let mut data = vec![1, 255];
            data.extend_from_slice(&[9; 508]);
            data.extend_from_slice(&b);
            match read::<Encoding>(&data) {
                Some((Encoding::Format1(encoding), used)) => {
                    reach!("format 1");
                    check!(used == 512, "C15 an encoding consumes exactly its encoding");
                    check!(encoding.ranges.len() == 255, "C15 an encoding has as many ranges as its count");
                    if encoding.ranges.len() == 255 {
                        check!(
                            (encoding.ranges[254].first_code == b[0]) & (encoding.ranges[254].left_count == b[1]),
                            "C15 a range has the first code and the number of those left of its bytes"
                        );
                    }
                }
                _ => check!(false, "C15 well-formed encodings are accepted"),
            }
        }
    }

    fn h_encoding_supplement("C15", Both, ["supplement"],
        "format 0 with the supplement flag, 1 to 2 codes, and 0 to 1 supplements")
    {
        let b = bytes::<2>();
        let s = bytes::<3>();
        let n = 1 + choose(2);
        let m = choose(2);
        let mut data = vec![0x80, n as u8];
        data.extend_from_slice(&b[..n]);
        data.push(m as u8);
        data.extend_from_slice(&s[..3 * m]);
        reach!("supplement");
        // the position is observable whatever the representation is
        let used = read::<Encoding>(&data).map(|value| value.1);
        check!(used == Some(data.len()), "C15 an encoding with supplements has its base before them");
    }

    fn h_encoding_standard("C16", Both, ["encoded", "unencoded"], "all codes from 0 to 65535") {
        builtin(&Encoding::Standard, &STANDARD_ENCODING);
    }

    fn h_encoding_expert("C16", Both, ["encoded", "unencoded"], "all codes from 0 to 65535") {
        builtin(&Encoding::Expert, &EXPERT_ENCODING);
    }

    fn h_select("C17", Quick, ["format 0", "format 3", "rejected"],
        "all strings of 0 to 9 bytes, up to 4 glyphs and 255 ranges")
    {
        select::<9>(4);
    }

    fn h_select_more("C17", Both, ["format 0", "format 3", "rejected"],
        "all strings of 0 to 18 bytes, up to 18 glyphs and 255 ranges")
    {
        select::<18>(18);
    }

    fn h_select_long("C17", Both, ["format 0", "format 3"],
        "300 glyphs or ranges with one symbolic at 3 positions")
    {
        let b = bytes::<3>();
        let k = [0, 256, 299][choose(3)];
        if choose(2) == 0 {
            let mut data = vec![0; 301];
            data[1 + k] = b[0];
            match read_given::<character_id_keyed::Encoding>(&data, &strings(300)) {
                Some((character_id_keyed::Encoding::Format0(encoding), used)) => {
                    reach!("format 0");
                    check!(used == 301, "C17 a selector consumes exactly its encoding");
                    check!(same(&encoding.dictionary_ids, &data[1..]), "C17 format 0 has a dictionary per glyph in order");
                }
                _ => check!(false, "C17 well-formed selectors are accepted"),
            }
        } else {
            let mut data = vec![3, 1, 44];
            data.resize(3 + 900 + 2, 0);
            data[3 + 3 * k..6 + 3 * k].copy_from_slice(&b);
            match read_given::<character_id_keyed::Encoding>(&data, &strings(300)) {
                Some((character_id_keyed::Encoding::Format3(encoding), used)) => {
                    reach!("format 3");
                    check!(used == data.len(), "C17 a selector consumes exactly its encoding");
                    check!(encoding.ranges.len() == 300, "C17 format 3 has as many ranges as its count");
                    if encoding.ranges.len() == 300 {
                        check!(
                            (encoding.ranges[k].first_glyph_id == (b[0] as u16) << 8 | b[1] as u16)
                                & (encoding.ranges[k].dictionary_id == b[2]),
                            "C17 a range has the first glyph and the dictionary of its bytes"
                        );
                    }
                }
                _ => check!(false, "C17 well-formed selectors are accepted"),
            }
        }
    }
}
