//! Arbitrary data.

use postscript::compact1::font_set::character_id_keyed;
use postscript::compact1::index::{CharacterStrings, Dictionaries, Names, Strings, Subroutines};
use postscript::compact1::{CharacterSet, Encoding, FontSet, Header, Index, Number, Offset, Operations};

use crate::sx::{assume, bytes, choose, u16, u32};
use crate::util::*;
use crate::{harnesses, reach};

fn index<T: postscript::value::Read, const N: usize>() {
    let b = bytes::<N>();
    let n = choose(N + 1);
    match read::<T>(&b[..n]) {
        Some(_) => reach!("accepted"),
        _ => reach!("rejected"),
    }
}

harnesses! {
    fn h_robust_index("C01", Quick, ["accepted", "rejected"], "indices: all strings of 0 to 9 bytes") {
        index::<Index, 9>();
    }

    fn h_robust_index_more("C01", Both, ["accepted", "rejected"], "indices: all strings of 0 to 12 bytes") {
        index::<Index, 12>();
    }

    fn h_robust_index_kinds("C01", Both, ["accepted", "rejected"],
        "headers, names, dictionaries, strings, subroutines, and character strings: all strings of 0 to 6 bytes")
    {
        match choose(6) {
            0 => index::<Header, 6>(),
            1 => index::<Names, 6>(),
            2 => index::<Dictionaries, 6>(),
            3 => index::<Strings, 6>(),
            4 => index::<Subroutines, 6>(),
            _ => {
                let b = bytes::<6>();
                read_given::<CharacterStrings>(&b, u32() as i32);
            }
        }
    }

    fn h_robust_number("C01", Both, ["accepted", "rejected"],
        "numbers: all strings of 0 to 6 bytes except for real numbers, and real numbers of 0 to 2 bytes")
    {
        let b = bytes::<6>();
        let n = choose(7);
        if n > 3 {
            assume(b[0] != 0x1e);
        }
        match read::<Number>(&b[..n]) {
            Some(_) => reach!("accepted"),
            _ => reach!("rejected"),
        }
    }

    fn h_robust_number_more("C01", Both, ["accepted", "rejected"], "real numbers: all strings of 3 bytes") {
        let b = bytes::<3>();
        match read::<Number>(&[0x1e, b[0], b[1], b[2]]) {
            Some(_) => reach!("accepted"),
            _ => reach!("rejected"),
        }
    }

    fn h_robust_dictionary("C01", Both, ["accepted", "rejected"],
        "dictionaries: all strings of 0 to 3 bytes without real numbers")
    {
        let b = bytes::<3>();
        for i in 0..3 {
            assume(b[i] != 0x1e);
        }
        match read::<Operations>(&b[..choose(4)]) {
            Some(_) => reach!("accepted"),
            _ => reach!("rejected"),
        }
    }

    fn h_robust_dictionary_real("C01", Both, ["accepted", "rejected"],
        "dictionaries: a real number of 1 to 2 arbitrary bytes followed by an operator")
    {
        let b = bytes::<2>();
        let mut data = vec![0x1e];
        data.extend_from_slice(&b[..1 + choose(2)]);
        data.push(10);
        match read::<Operations>(&data) {
            Some(_) => reach!("accepted"),
            _ => reach!("rejected"),
        }
    }

    fn h_robust_tables("C01", Both, ["accepted", "rejected"],
        "offsets, encodings, character sets of up to 70000 glyphs, selectors of up to 65535 glyphs: all strings of 0 to 6 bytes")
    {
        let b = bytes::<6>();
        let n = choose(7);
        let fine = match choose(4) {
            0 => read_given::<Offset>(&b[..n], u16() as u8).is_some(),
            1 => read::<Encoding>(&b[..n]).is_some(),
            2 => {
                let glyph_count = u32() as usize;
                assume(glyph_count <= 70_000);
                read_given::<CharacterSet>(&b[..n], glyph_count).is_some()
            }
            _ => {
                let strings = CharacterStrings(Index { count: u16(), offset_size: 1, offsets: vec![], data: vec![] });
                read_given::<character_id_keyed::Encoding>(&b[..n], &strings).is_some()
            }
        };
        if fine {
            reach!("accepted");
        } else {
            reach!("rejected");
        }
    }

    fn h_robust_parts("C01", Both, ["accepted", "rejected"],
        "character sets of each format read directly with 0 to 3 glyphs and selectors and encodings of each format read directly: all strings of 0 to 6 bytes")
    {
        use postscript::compact1::{character_set, encoding};
        let b = bytes::<6>();
        let b = &b[..choose(7)];
        let fine = match choose(8) {
            0 => read_given::<character_set::CharacterSet0>(b, choose(4)).is_some(),
            1 => read_given::<character_set::CharacterSet1>(b, choose(4)).is_some(),
            2 => read_given::<character_set::CharacterSet2>(b, choose(4)).is_some(),
            3 => read::<encoding::Encoding0>(b).is_some(),
            4 => read::<encoding::Encoding1>(b).is_some(),
            5 => read::<encoding::EncodingSupplemental>(b).is_some(),
            6 => read::<character_id_keyed::Encoding3>(b).is_some(),
            _ => {
                let strings = CharacterStrings(Index { count: choose(4) as u16, offset_size: 1, offsets: vec![], data: vec![] });
                read_given::<character_id_keyed::Encoding0>(b, &strings).is_some()
            }
        };
        if fine {
            reach!("accepted");
        } else {
            reach!("rejected");
        }
    }

    fn h_robust_font("C01", Both, ["rejected"], "font sets and their counts: all strings of 0 to 8 bytes") {
        let b = bytes::<8>();
        let n = choose(9);
        let mut tape = std::io::Cursor::new(&b[..n]);
        let _ = FontSet::count(&mut tape);
        match read::<FontSet>(&b[..n]) {
            Some(_) => {}
            _ => reach!("rejected"),
        }
    }

    fn h_robust_get("C01", Both, ["accepted", "rejected"],
        "lookups of names of glyphs and of encoded strings: all identifiers against all predefined tables and read ones of up to 6 bytes; strings of a font with any bytes")
    {
        let id = u16();
        let fine = match choose(6) {
            0 => CharacterSet::ISOAdobe.get(id).is_some(),
            1 => CharacterSet::Expert.get(id).is_some(),
            2 => CharacterSet::ExpertSubset.get(id).is_some(),
            3 => {
                let b = bytes::<6>();
                match read_given::<CharacterSet>(&b, choose(3) + 1) {
                    Some((set, _)) => {
                        set.get(id);
                        true
                    }
                    _ => false,
                }
            }
            4 => {
                let b = bytes::<6>();
                match read::<Encoding>(&b) {
                    Some((encoding, _)) => {
                        encoding.get(id);
                        true
                    }
                    _ => false,
                }
            }
            _ => {
                let b = bytes::<3>();
                let data = vec![b[..1].to_vec(), b[1..].to_vec()];
                let strings = Strings(Index { count: 2, offset_size: 1, offsets: vec![], data });
                strings.get(id).is_some()
            }
        };
        if fine {
            reach!("accepted");
        } else {
            reach!("rejected");
        }
    }
}
